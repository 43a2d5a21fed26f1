"""Development tool (not a check): runs the whole quick space of checks on mutants, 8 processes per mutant, until the first
unknown disagreement.

usage: mutfull.py MUTANTS.json OUT.log      (each mutant carries "checks": ["C05", ...])
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
N = int(os.environ.get("JOBS", "8"))
SRC = os.environ.get("MUTSRC", "/repo")       # the tree the mutants were made from


def child(checks):
    """Runs in a fresh process with PYFLP_REPO set."""
    from mc import engine
    from mutone import spread
    scratch = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
    stop = os.path.join(scratch, "stop")
    try:
        for c in checks:
            try:
                mod = importlib.import_module("checks." + c.lower())
            except Exception as e:
                print("killed %s cannot be loaded: %r" % (c, e))
                return
            known = [k["match"] for k in engine.known_findings(c)]
            pids = []
            for w in range(N):
                pid = os.fork()
                if pid == 0:
                    try:
                        d = os.path.join(scratch, "w%d" % w)
                        os.makedirs(d, exist_ok=True)
                        ctx = engine.Ctx("quick", d)
                        for i, case in enumerate(spread(list(mod.cases("quick")))):
                            if i % N != w:
                                continue
                            if os.path.exists(stop):
                                break
                            bad = [x for x in engine.execute(mod, case, ctx) if not any(k in x for k in known)]
                            if bad:
                                with open(stop, "w") as f:
                                    f.write("%s %s: %s" % (c, str(case)[:60], bad[0].replace("\n", " ")[:200]))
                                break
                    finally:
                        os._exit(0)
                pids.append(pid)
            for p in pids:
                os.waitpid(p, 0)
            if os.path.exists(stop):
                print("killed " + open(stop).read())
                return
        print("ALIVE " + " ".join(checks))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if sys.argv[1] == "--child":
        return child(sys.argv[2:])
    d = "/tmp/mutfullwt"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(SRC, d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git"))
    for m in json.load(open(sys.argv[1])):
        src = open(os.path.join(SRC, m["file"]), "rb").read()
        with open(os.path.join(d, m["file"]), "wb") as f:
            f.write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
        t = time.time()
        try:
            r = subprocess.run([PY, os.path.abspath(__file__), "--child"] + m["checks"], env=dict(os.environ, PYFLP_REPO=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"),
                               capture_output=True, text=True, timeout=1200)
            text = (r.stdout.strip().splitlines() or ["killed " + r.stderr[-150:].replace("\n", " ")])[-1]
        except subprocess.TimeoutExpired:
            text = "killed timeout"
        with open(sys.argv[2], "a") as f:
            f.write("%s | %s:%d %s %r -> %r | %d s\n" % (text, m["file"], m["line"], m["op"], m["old"][:60], m["new"][:40], time.time() - t))
        shutil.copy(os.path.join(SRC, m["file"]), os.path.join(d, m["file"]))
    shutil.rmtree(d)


if __name__ == "__main__":
    main()
