"""Exhaustive enumeration driver.

A check module provides
  LEVEL, BOUNDS(tier) -> dict of stated bounds, ASSUMPTIONS
  cases(tier)         -> iterator over JSON-able cases, always in the same order
  run(case, ctx)      -> explores the case on the real code; reports through ctx

Cases are dealt to worker processes by their number; every case is executed exactly once. Within a case
ctx.state(key) records a distinct state, ctx.step() a transition (an operation of the real code that was
compared with the model), ctx.trace() a completed trace, ctx.fail(text) a disagreement.
"""
import hashlib
import json
import os
import pickle
import re
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYFLP_REPO", "/repo")
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
PROFILE = bool(os.environ.get("MC_PROFILE"))
MAX_FAILS = 25          # per worker, then it stops
CPU_SECONDS, CASE_SECONDS = 60, 150         # of processor time (what a loop without end uses up), on the clock
LIMIT = {"quick": 660, "thorough": 3000}


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang("no answer within %d s of processor time or %d s" % (CPU_SECONDS, CASE_SECONDS))


class Ctx:
    def __init__(self, tier, scratch):
        self.tier = tier
        self.lvl = 2 if tier == "thorough" else 1
        self.scratch = scratch
        self.seen = set()
        self.steps = 0
        self.traces = 0
        self.counts = {}
        self.fails = []

    def state(self, key):
        if not isinstance(key, bytes):
            key = repr(key).encode()
        self.seen.add(hashlib.blake2b(key, digest_size=8).digest())

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fail(self, text):
        if len(self.fails) < 40:
            self.fails.append(str(text)[:600])

    def eq(self, got, want, what):
        self.steps += 1
        if got != want:
            self.fail("%s: got %s, expected %s" % (what, short(got), short(want)))
            return False
        return True


def short(v):
    s = repr(v)
    return s if len(s) < 240 else s[:160] + "..." + s[-60:]


def known_findings(prop):
    """Lines 'finding: property=<id> match=<text of the disagreement> what=<what fails>' of known_findings.txt."""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) match=(.+?) what=(.+)$", line.strip())
                if m and m.group(1) == prop:
                    out.append({"match": m.group(2), "what": m.group(3)})
    return out


def execute(mod, case, ctx):
    """Runs one case -> list of disagreements."""
    ctx.fails = []
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_SECONDS * (4 if ctx.tier == "thorough" else 1))
    signal.alarm(CASE_SECONDS * (4 if ctx.tier == "thorough" else 1))
    try:
        mod.run(case, ctx)
    except Hang as e:
        ctx.fails.append("hang: %s" % e)
    except MemoryError:
        ctx.fails.append("out of memory")
    except RecursionError as e:
        ctx.fails.append("recursion: %s" % e)
    except Exception as e:      # the real code (or the comparison with it) failed in an unforeseen way
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join("%s:%d %s" % (os.path.basename(t.filename), t.lineno, t.name) for t in tb[::-1][:5])
        ctx.fails.append("unexpected %s: %s [%s]" % (type(e).__name__, e, where))
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    return ctx.fails


def worker(mod, tier, w, n, deadline, out, scratch):
    d = os.path.join(scratch, "w%d" % w)
    os.makedirs(d, exist_ok=True)
    ctx = Ctx(tier, d)
    bad, total, capped, samples = [], 0, False, []
    for i, case in enumerate(mod.cases(tier)):
        if i % n != w:
            continue
        if time.time() > deadline:
            capped = True
            break
        t = time.time()
        fails = execute(mod, case, ctx)
        if PROFILE:
            ctx.count("seconds " + str(case[0]), time.time() - t)
            if time.time() - t > 5:
                print("%.1f s: %s" % (time.time() - t, case), flush=True)
        total += 1
        if len(samples) < 1 or (i // n) % 997 == 3:
            if len(samples) < 3:
                samples.append(case)
        if fails:
            bad.append((i, case, list(fails)))
            if len(bad) >= MAX_FAILS or fails[-1].startswith("hang"):
                capped = True
                break
    with open(out, "wb") as f:
        pickle.dump({"cases": total, "bad": bad, "capped": capped, "seen": ctx.seen, "steps": ctx.steps,
                     "traces": ctx.traces, "counts": ctx.counts, "samples": samples}, f)


def explore(mod, tier, limit):
    scratch = tempfile.mkdtemp(prefix="mcflp-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    deadline = time.time() + limit
    pids = {}
    try:
        for w in range(WORKERS):
            out = os.path.join(scratch, "r%d" % w)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    lim = 6 << 30
                    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                    worker(mod, tier, w, WORKERS, deadline, out, scratch)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = (w, out)
        res, dead = [], []
        hard = deadline + CASE_SECONDS * (4 if tier == "thorough" else 1) + 30
        waiting = dict(pids)
        while waiting:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid in waiting:
                w, out = waiting.pop(pid)
                if st == 0:
                    with open(out, "rb") as f:
                        res.append(pickle.load(f))
                else:
                    dead.append("worker %d ended with status %d" % (w, st))
                continue
            if time.time() > hard:
                for p in waiting:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                dead.append("workers killed after the hard time limit")
                break
            time.sleep(0.02)
        return res, dead
    finally:
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)


def jsonable(x):
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, bytes):
        return {"hex": x.hex()}
    return x


def unjson(x):
    if isinstance(x, list):
        return tuple(unjson(v) for v in x)
    if isinstance(x, dict):
        if set(x) == {"hex"}:
            return bytes.fromhex(x["hex"])
        return {k: unjson(v) for k, v in x.items()}
    return x


def write_evidence(prop, tier, level, cov, assumptions, wall, violations):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    doc = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
           "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(d, "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


def violation(prop, replay_doc):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    with open(path, "w") as f:
        json.dump(replay_doc, f, indent=1)
        f.write("\n")
    print("VIOLATION property=%s replay=%s" % (prop, path))


def main(prop, load, tier, replay=None):
    t0 = time.time()
    known = known_findings(prop)
    try:
        mod = load()
    except Exception as e:      # /repo cannot even be imported
        traceback.print_exc()
        write_evidence(prop, tier, "model_checking", {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                       "samples": [], "exhaustive": False}, [], time.time() - t0, 1)
        violation(prop, {"property": prop, "error": "importing the code failed: %r" % e})
        return 1

    def match(fails):
        """-> (known findings among fails, the others)"""
        k, rest = set(), []
        for text in fails:
            hit = next((i for i, d in enumerate(known) if d["match"] in text), None)
            (k.add(hit) if hit is not None else rest.append(text))
        return k, rest

    if replay:
        with open(replay) as f:
            doc = json.load(f)
        scratch = tempfile.mkdtemp(prefix="mcflp-")
        try:
            ctx = Ctx(doc.get("tier", tier), scratch)
            fails = execute(mod, unjson(doc["case"]), ctx)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        hits, rest = match(fails)
        for t in fails:
            print(t)
        if rest:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0

    limit = float(os.environ.get("MC_LIMIT", LIMIT[tier]))
    res, dead = explore(mod, tier, limit)
    seen = set()
    for r in res:
        seen |= r["seen"]
    steps = sum(r["steps"] for r in res)
    traces = sum(r["traces"] for r in res)
    ncases = sum(r["cases"] for r in res)
    counts = {}
    for r in res:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    bad = sorted((b for r in res for b in r["bad"]), key=lambda b: b[0])
    samples = [s for r in res for s in r["samples"]][:6]
    hits, viol = set(), []
    for i, case, fails in bad:
        h, rest = match(fails)
        hits |= h
        if rest:
            viol.append((i, case, rest))
    capped = any(r["capped"] for r in res) or bool(dead)
    cov = {"samples": jsonable(samples), "exhaustive": not capped and not viol, "cases": ncases,
           "bounds": jsonable(mod.BOUNDS(tier)), "counts": counts}
    if mod.LEVEL == "model_checking":
        cov.update(states=len(seen), transitions=steps, traces_validated_against_impl=traces)
    else:
        cov.update(evaluations=steps, distinct_nontrivial=len(seen), rule=mod.RULE)
    if hits:
        cov["known_findings"] = [known[i]["what"] for i in sorted(hits)]
    for i in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i]["what"]))
    rc = 0
    if viol:
        i, case, rest = viol[0]
        for t in rest[:8]:
            print("  " + t)
        print("%d of %d cases disagree with the model" % (len(viol), ncases))
        violation(prop, {"property": prop, "tier": tier, "case_number": i, "case": jsonable(case), "disagreements": rest,
                         "how": "run.py %s --replay <this file>" % prop})
        rc = 1
    elif dead:
        print("; ".join(dead))
        violation(prop, {"property": prop, "error": dead})
        rc = 1
    write_evidence(prop, tier, mod.LEVEL, cov, list(mod.ASSUMPTIONS), time.time() - t0, len(viol))
    if PROFILE:
        print({k: round(v, 1) for k, v in counts.items() if k.startswith("seconds")})
    print("%s %s: %d cases, %d states, %d transitions, %d traces, exhaustive=%s, %.1f s" % (
        prop, tier, ncases, len(seen), steps, traces, cov["exhaustive"], time.time() - t0))
    return rc
