"""Development tool (not a check): explores the named checks' cases in an order that visits all their kinds early, until
the first unknown disagreement (exit 1) or until the time is used up (exit 0).

usage: mutone.py SECONDS C03 C02 ...
"""
import importlib
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from mc import engine  # noqa: E402


def spread(cases):
    """Kinds in turn; within a kind first, middle, quarters, ..."""
    kinds = {}
    for c in cases:
        kinds.setdefault((c[0],) + tuple(x for x in c[1:2] if isinstance(x, str)), []).append(c)
    queues = []
    for v in kinds.values():
        order, seen, step = [], set(), len(v)
        while len(seen) < len(v):
            for i in range(step // 2, len(v), max(1, step)):
                if i not in seen:
                    seen.add(i)
                    order.append(v[i])
            if step <= 1:
                order += [x for i, x in enumerate(v) if i not in seen]
                break
            step //= 2
        queues.append(order)
    while queues:
        for q in list(queues):
            yield q.pop(0)
            if not q:
                queues.remove(q)


def main():
    scratch = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
    end = time.time() + float(sys.argv[1])
    try:
        todo = []
        for c in sys.argv[2:]:
            try:
                mod = importlib.import_module("checks." + c.lower())
            except Exception as e:
                print("%s cannot be loaded: %r" % (c, e))
                return 1
            todo.append((c, mod, spread(list(mod.cases("quick"))), [k["match"] for k in engine.known_findings(c)], engine.Ctx("quick", scratch)))
        n = 0
        while todo and time.time() < end:
            for item in list(todo):
                c, mod, it, known, ctx = item
                t = time.time()
                while time.time() < t + 1:      # a second of each check in turn
                    case = next(it, None)
                    if case is None:
                        todo.remove(item)
                        break
                    n += 1
                    bad = [x for x in engine.execute(mod, case, ctx) if not any(k in x for k in known)]
                    if bad:
                        print("%s case %s: %s" % (c, str(case)[:60], bad[0].replace("\n", " ")))
                        return 1
        print("%d cases, unfinished: %s" % (n, " ".join(i[0] for i in todo)))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
