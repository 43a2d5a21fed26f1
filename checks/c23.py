"""C23: threads which work on different projects do not disturb each other.

Two threads run real operations (parse, read, write, save, a failing parse) on projects of their own. A controlled
scheduler lets exactly one of them run and hands over at chosen lines of the library (every executed line of /repo/pyflp
is a scheduling point); all schedules with one preemption are run, each from a process in which the library has not
been used yet; the same for two projects with the same kinds of objects, for every kind; and all schedules with two preemptions over the first occurrences of every line.
"""
import json
import os
import sys
import threading
import traceback

from mc import engine, flpfmt, real, spec, templates
from mc.codecs import Raises
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["each project is used by one thread only", "preemption happens between lines of the library, not within a line or in its dependencies",
               "a thread which waits for a lock the other one holds lets that one run"]
PKG = os.path.join(os.path.abspath(engine.REPO), "pyflp") + os.sep
PATIENCE = 3.0


def BOUNDS(tier):
    return {"threads": 2, "operations": "parse, read everything, write, save, failing parse; %d ordered pairs of tasks on projects of different FL versions" % len(SCENES if tier == "thorough" else QUICK),
            "one preemption": "at every line executed by the first thread, repeats within %s, %d pairs; and, each schedule in a fresh process, at the first %s of every line" % (("20 lines left out", len(SCENES), "3 occurrences") if tier == "thorough" else ("60 lines left out", 5, "occurrence")),
            "kinds": "for each of %d pairs of projects holding the same kinds of objects, and parse-and-save, reading and writing: one preemption at the first %s of every line" % (len(templates.SECTIONS), "4 occurrences" if tier == "thorough" else "occurrence (parse-and-save: 2)"),
            "two preemptions": "at the first occurrence of every %s of either thread" % ("line" if tier == "thorough" else "function entry")}


# --------------------------------------------------------------------------- projects and tasks
def new(j):
    g = Gen(j)
    g.ev.append((199, T("20.8.4.2576", "ascii")))
    return g.raw(159, u32(2576)).t(194, "neu %d" % j).groups(1)


def old(j):
    g = Gen(j, "9.1.0")
    g.ev.append((199, T("9.1.0", "ascii")))
    return g.t(194, "alt %d" % j).t(231, "g")


def proj_a(j=0):
    g = new(j)
    g.raw(65, u16(1)).raw(224, g.notes(2)).t(193, "p")
    g.channel(0, 2, 0).plug("BooBass", g.native("BooBass")).s(0)
    return g.raw(99, u16(0)).raw(233, g.plitem(499, 0) + g.plitem(499, 20481)).marker().track().raw(100, u16(0)).state()


def proj_b(j=1):
    g = new(j)
    g.channel(3, 0, 0).t(203, "smp").s(128, 32).raw(213, g.filler(12))
    g.raw(29, u8(1))
    g.insert_head().slot(0, "Fruity Send", g.native("Fruity Send")).slot(1).insert_tail()
    return g.raw(225, g.params(1, 1, 1, 1)).state()


def proj_c(j=2):
    g = old(j)
    g.channel(1, 2, 0).t(201, "Fruity Wrapper").raw(213, g.vst((2, 54))).t(192, "c")
    return g.raw(99, u16(0)).raw(233, g.plitem(198, 1)).track(False).raw(100, u16(0)).state()


def proj_d(j=3):
    g = old(j)
    return g.raw(66, u16(130)).raw(93, u16(5)).raw(65, u16(2)).raw(223, g.controllers(1)).s(17, 18).state()


def proj_e(j=4):
    g = new(j)
    g.channel(0, 2, 0).t(201, "BooBass").raw(213, g.native("BooBass"))
    return flpfmt.State(tuple(e for e in g.state().events if e[0] != 159))


def proj_f(j=5):
    g = old(j)
    return g.channel(2, 0, 0).t(201, "Unknown").raw(213, g.filler(5)).raw(66, u16(130)).state()


def section(name, j):
    return lambda: templates.SECTIONS[name](j)


PROJ = {"a": proj_a, "b": proj_b, "c": proj_c, "d": proj_d, "e": proj_e, "f": proj_f}
TASKS = ("cycle", "read", "write", "bad")
# two projects with the same kinds of objects and other contents, for every kind of object
PROJ.update({n + str(j): section(n, j) for n in templates.SECTIONS for j in (0, 1)})
KINDS = [(n + "0", t, n + "1", t) for n in templates.SECTIONS for t in TASKS[:3]]
SCENES = [(x, t, y, u) for x, y in (("a", "c"), ("b", "a"), ("c", "b"), ("d", "a"), ("a", "d"), ("b", "c"), ("a", "a"), ("e", "f"), ("f", "e"))
          for t, u in (("cycle", "cycle"), ("read", "write"), ("write", "read"), ("read", "read"), ("write", "write"), ("cycle", "read"), ("cycle", "write"), ("read", "cycle"), ("write", "cycle"), ("cycle", "bad"), ("bad", "cycle"))]
QUICK = [SCENES.index(x) for x in (("a", "cycle", "c", "cycle"), ("c", "cycle", "b", "cycle"), ("d", "cycle", "a", "cycle"), ("b", "read", "c", "cycle"), ("b", "cycle", "c", "write"),
                                   ("b", "write", "c", "read"), ("a", "read", "a", "read"), ("b", "cycle", "c", "bad"))]


TWO = [SCENES.index(x) for x in (("e", "cycle", "f", "cycle"), ("f", "write", "e", "cycle"), ("e", "bad", "f", "cycle"))]


def model(p, cache={}):
    if p not in cache:
        st = PROJ[p]()
        cache[p] = st, flpfmt.encode(st), spec.build(st)
    return cache[p]


def task(ctx, who, p, kind):
    """-> a function to be run by a thread; what has to be prepared is done here."""
    st, raw, tree = model(p)
    src, dst = os.path.join(ctx.scratch, who + ".flp"), os.path.join(ctx.scratch, who + ".out")
    with open(src, "wb") as f:
        f.write(raw[:-1] if kind == "bad" else raw)
    log = engine.Ctx("quick", ctx.scratch)
    if kind in ("read", "write"):
        proj = real.pyflp.parse(src)

    def saved(proj, want):
        real.pyflp.save(proj, dst)
        with open(dst, "rb") as f:
            got = f.read()
        if got != want:
            log.fail("saved file: %s" % real.diff(want, got))

    def run():
        if kind == "bad":
            got = real.outcome_raw(lambda: real.pyflp.parse(src))
            if not isinstance(got, Raises) or "HeaderCorrupted" not in got:
                log.fail("a damaged file: %s" % (got,))
        elif kind == "cycle":
            pr = real.pyflp.parse(src)
            for path, node in tree.walk():
                if path and path[-1] == ("s", "plugin"):
                    real.compare(log, node, real.get(pr, tree, path))
            if [(int(e.id), bytes(e)) for e in pr.events] != [(i, flpfmt.enc_event(i, b)) for i, b in st.events]:
                log.fail("parsed events differ from the stored ones")
            saved(pr, raw)
            log.later = lambda: sequential(log, pr, src)
        elif kind == "read":
            real.compare(log, tree, proj)
        else:
            now, t = st, tree
            for path, node, a, cell in writable(tree):
                v = [x for x in spec.resolve(t, path).attrs[a].few() if not isinstance(spec.resolve(t, path).attrs[a].write(x), Raises)][1]
                setattr(real.get(proj, t, path), a, real.convert(v))
                now = spec.apply(now, spec.resolve(t, path).attrs[a].write(v))
                t = spec.build(now)
                if not real.same(real.outcome(lambda: getattr(real.get(proj, t, path), a)), spec.resolve(t, path).attrs[a].value()):
                    log.fail("%s.%s does not read what was written" % (real.show(path), a))
            saved(proj, flpfmt.encode(now))
    return run, log


def sequential(log, proj, src):
    """What a thread parsed is what parsing the same file alone gives (after the threads have ended)."""
    for k, (e, f) in enumerate(zip(proj.events, real.pyflp.parse(src).events)):
        if type(e) is not type(f) or e != f:
            return log.fail("event %d is %s, parsed alone %s" % (k, engine.short(e), engine.short(f)))


def writable(tree):
    """One plain attribute of each kind of object."""
    seen, out = set(), []
    for path, node, a, cell in spec.writable(tree, False):
        if node.cls not in seen and not spec.structural(node, a) and len(cell.few()) > 1 and a not in ("version",):
            seen.add(node.cls)
            out.append((path, node, a, cell))
    return out


# --------------------------------------------------------------------------- scheduler
class Thread:
    """Runs a task; after every executed line of the library asks where to go on."""

    def __init__(self, fn, log):
        self.fn, self.log = fn, log
        self.turn = threading.Lock()
        self.turn.acquire()
        self.points = []
        self.seen = {}
        self.stops = ()
        self.limit = None
        self.n = 0
        self.other = None
        self.entries = self.fresh = self.quiet = self.counting = False
        self.done = False
        self.gap = self.ticks = 0
        self.last = {}

    def line(self, frame, event, arg):
        if event == "line" and (not self.entries or self.fresh):
            self.fresh = False
            if self.gap:
                self.ticks += 1
                k = (frame.f_code, frame.f_lineno)
                t = self.last.get(k)
                self.last[k] = self.ticks
                if t is not None and self.ticks - t < self.gap:
                    return self.line
            if self.limit is not None:
                k = (frame.f_code.co_filename, frame.f_lineno)
                c = self.seen[k] = self.seen.get(k, 0) + 1
                if c > self.limit:
                    return self.line
            self.n += 1
            if self.n in self.stops:
                self.hand_over()
                if self.stops and self.n >= max(self.stops) and self.quiet:
                    sys.settrace(None)      # nothing is left to decide
                    return None
        return self.line

    def call(self, frame, event, arg):
        self.fresh = True
        return self.line if frame.f_code.co_filename.startswith(PKG) else None

    def hand_over(self):
        if not self.other.done:
            release(self.other.turn)
            self.turn.acquire(timeout=PATIENCE)

    def body(self):
        self.turn.acquire()
        if self.stops or self.counting:
            sys.settrace(self.call)
        try:
            self.fn()
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.log.fail("%s: %s [%s]" % (type(e).__name__, e, " < ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[::-1][:4])))
        finally:
            sys.settrace(None)
            self.done = True
            release(self.other.turn)


def release(lock):
    try:
        lock.release()
    except RuntimeError:
        pass        # it had grown impatient


def schedule(ctx, scene, stops, limit, entries=False, gap=0):
    """Runs one schedule -> (disagreements, lines executed by each thread)"""
    x, t, y, u = scene
    th = [Thread(*task(ctx, "t0", x, t)), Thread(*task(ctx, "t1", y, u))]
    th[0].other, th[1].other = th[1], th[0]
    th[0].stops, th[1].stops = stops
    th[0].limit = th[1].limit = limit
    th[0].entries = th[1].entries = entries
    th[0].gap = gap
    th[0].counting = th[1].counting = not any(stops)
    th[0].quiet, th[1].quiet = bool(stops[0]), bool(stops[1])
    ts = [threading.Thread(target=h.body, daemon=True) for h in th]
    for z in ts:
        z.start()
    th[0].turn.release()
    for z in ts:
        z.join(60)
        if z.is_alive():
            return ["a thread does not end"], [0, 0]
    for h in th:
        getattr(h.log, "later", lambda: None)()
    return ["thread %d: %s" % (i, f) for i, h in enumerate(th) for f in h.log.fails], [h.n for h in th]


def forked(ctx, fn):
    """fn() in a child process, which starts from a process that has not used the library; -> its result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    out = b""
    try:
        while True:
            part = os.read(r, 65536)
            if not part:
                break
            out += part
    finally:
        os.close(r)
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
    return json.loads(out) if out else [["the process ended"], [0, 0]]


# --------------------------------------------------------------------------- exploration
def cases(tier):
    for k in QUICK[:5] if tier == "quick" else range(len(SCENES)):
        for part in range(8 if tier == "quick" else 32):
            yield ("one", k, part, 8 if tier == "quick" else 32)
    for k in QUICK[:5] if tier == "quick" else range(len(SCENES)):
        for part in range(16 if tier == "quick" else 32):
            yield ("warm", k, part, 16 if tier == "quick" else 32)
    for k in range(len(KINDS)):
        for part in range(12):
            yield ("kinds", k, part, 12)
    for k in TWO if tier == "quick" else TWO + QUICK[:3]:
        for part in range(16):
            yield ("two", k, part, 16)


def run(case, ctx):
    kind, k, part, parts = case
    ctx.count(kind)
    scene = (KINDS if kind == "kinds" else SCENES)[k]
    label = "%s of %s / %s of %s" % (scene[1], scene[0], scene[3], scene[2])
    if kind == "one":
        limit = 1 if ctx.lvl == 1 else 3
        fails, n = forked(ctx, lambda: schedule(ctx, scene, ((), ()), limit))
        report(ctx, label, fails, ())
        for i in range(1 + part, n[0] + 1, parts):
            fails, m = forked(ctx, lambda: schedule(ctx, scene, ((i,), ()), limit))
            ctx.state((k, i))
            ctx.trace()
            ctx.step(sum(m))
            if report(ctx, label, fails, (i,)):
                return
    else:
        res = forked(ctx, lambda: {"two": two, "warm": warm, "kinds": kinds}[kind](ctx, scene, part, parts))
        fails, (traces, steps) = res[0], res[1]
        ctx.trace(traces)
        ctx.step(steps)
        for i in range(traces):
            ctx.state((kind, k, part, i))
        report(ctx, label, fails, ())


def warm(ctx, scene, part, parts):
    gap = 60 if ctx.lvl == 1 else 20
    fails, n = schedule(ctx, scene, ((), ()), None, gap=gap)
    traces = steps = 0
    for i in range(1 + part, n[0] + 1, parts):
        fails, m = schedule(ctx, scene, ((i,), ()), None, gap=gap)
        traces += 1
        steps += sum(m)
        if fails:
            return [["preempted at %d: %s" % (i, f) for f in fails], [traces, steps]]
    return [fails, [traces, steps]]


def kinds(ctx, scene, part, parts):
    limit = (2 if scene[1] == "cycle" else 1) if ctx.lvl == 1 else 4
    fails, n = schedule(ctx, scene, ((), ()), limit)
    traces = steps = 0
    for i in range(1 + part, n[0] + 1, parts):
        fails, m = schedule(ctx, scene, ((i,), ()), limit)
        traces += 1
        steps += sum(m)
        if fails:
            return [["preempted at %d: %s" % (i, f) for f in fails], [traces, steps]]
    return [fails, [traces, steps]]


def two(ctx, scene, part, parts):
    fails, n = schedule(ctx, scene, ((), ()), 1, ctx.lvl == 1)
    traces = steps = 0
    for i in range(1 + part, n[0] + 1, parts):
        for j in range(1, n[1] + 1):
            fails, m = schedule(ctx, scene, ((i,), (j,)), 1, ctx.lvl == 1)
            traces += 1
            steps += sum(m)
            if fails:
                return [["preempted at %d and %d: %s" % (i, j, f) for f in fails], [traces, steps]]
    return [fails, [traces, steps]]


def report(ctx, label, fails, where):
    for f in fails:
        ctx.fail("%s, preempted at %s: %s" % (label, where, f))
    return bool(fails)
