"""Development tool (not a check): judges the mutants of tools/mutants.py.

usage: python3 tools/mutrun.py tests ALL.json SURVIVORS.json     which pass the repository's tests
       python3 tools/mutrun.py checks SURVIVORS.json OUT.json SECONDS   which the checks responsible for the file do not catch within SECONDS
Works on copies under /tmp/mut; nothing in /repo is touched.
"""
import json
import multiprocessing
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
N = int(os.environ.get("MUT_JOBS", "8"))


CHECKS = {"__init__": "C03 C02 C01 C09 C16 C20", "_adapters": "C14 C06", "_descriptors": "C08 C06 C05 C07", "_events": "C10 C18 C03 C02 C01 C08",
          "_models": "C12 C19 C10", "arrangement": "C13 C22 C12 C05 C08 C06", "channel": "C05 C06 C08 C11 C12 C14", "controller": "C05 C06",
          "exceptions": "C18 C03", "mixer": "C21 C15 C12 C08 C05", "pattern": "C22 C19 C08 C14 C12", "plugin": "C20 C05 C06 C08 C14",
          "project": "C16 C14 C08 C06 C11 C21 C22 C05", "timemarker": "C22 C05 C06", "types": "C16 C05"}


def copy(w):
    d = "/tmp/mut/w%s" % w
    if not os.path.exists(d):
        shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git"))
    return d


def apply(d, m):
    src = open("/repo/" + m["file"], "rb").read()
    with open(os.path.join(d, m["file"]), "wb") as f:
        f.write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])


def undo(d, m):
    shutil.copy("/repo/" + m["file"], os.path.join(d, m["file"]))


def judge(args):
    phase, m, strides = args
    d = copy(multiprocessing.current_process()._identity[0])
    apply(d, m)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d, PYFLP_REPO=d, PYTHONHASHSEED="0")
    try:
        if phase == "tests":
            try:
                r = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-W", "ignore"], cwd=d, env=env, capture_output=True, timeout=120)
                return m, r.returncode == 0, ""
            except subprocess.TimeoutExpired:
                return m, False, "timeout"
        try:
            r = subprocess.run([PY, os.path.join(HERE, "mutone.py")] + strides + CHECKS[os.path.basename(m["file"])[:-3]].split(), cwd=os.path.dirname(HERE), env=env, capture_output=True, timeout=1500, text=True)
        except subprocess.TimeoutExpired:
            return m, False, "timeout"
        last = r.stdout.strip().splitlines()[-1:] or [r.stderr[-200:]]
        return m, r.returncode == 0, last[0]
    finally:
        undo(d, m)


def main():
    phase, src, out = sys.argv[1:4]
    todo = json.load(open(src))
    alive = []
    with multiprocessing.Pool(N) as pool:
        for n, (m, ok, text) in enumerate(pool.imap_unordered(judge, [(phase, m, sys.argv[4:]) for m in todo])):
            m["verdict"] = text
            if phase == "checks":
                with open(out + ".log", "a") as f:
                    f.write("%s %s:%d %s %r -> %r  %s\n" % ("ALIVE" if ok else "killed", m["file"], m["line"], m["op"], m["old"][:60], m["new"], text[:200]))
            if ok:
                alive.append(m)
            if n % 50 == 0:
                print(n, len(todo), len(alive), flush=True)
                json.dump(alive, open(out, "w"))
    json.dump(alive, open(out, "w"))
    print("done", len(todo), "alive", len(alive))


main()
