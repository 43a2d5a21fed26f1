"""C04: reading changes nothing, projects do not affect each other."""
import itertools

from mc import engine, flpfmt, real, spec, templates
from mc.codecs import Raises, norm
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["the result of an operation that raises is its exception type; only its effect on the project is judged here",
               "what a project must save / read is given by the reference model (mc/spec.py)"]
STEPS = ("parse", "read", "write", "save")


def BOUNDS(tier):
    return {"single reads": "every attribute, item, length, repr, str, comparison of every object of every section",
            "read histories": "all ordered pairs of read operations on the small projects" + ("" if tier == "quick" else ", all triples on the smallest"),
            "interleavings": "all 70 interleavings of parse/read/write/save of two projects x 12 project pairs; all positions of a failed parse",
            "cross writes": "every writable attribute of every section written in one of two projects"}


def pairs():
    s = templates.SECTIONS
    nameless = flpfmt.State(((199, T("20.8.4", "ascii")), (231, T("g")), (64, u16(0)), (21, u8(2)), (145, bytes(4)), (213, bytes(range(40)))))
    lst = [(s["instrument"](0), nameless), (s["effects"](1), nameless), (s["vst"](1), s["vst"](2)), (s["oldchannel"](0), s["sampler"](1)),
           (s["sampler"](0), s["sampler"](0)), (s["pattern"](0), s["pattern"](0)), (s["mixer"](0), s["mixer"](1)),
           (s["arrangement"](0), s["arrangement"](1)), (s["project"](0), s["oldproject"](0)), (s["misc"](0), s["misc"](0)),
           (s["generators"](0), s["effects"](0)), (s["oldproject"](1), s["project"](1))]
    return lst


def cases(tier):
    lvl = 2 if tier == "thorough" else 1
    for name in templates.SECTIONS:
        for j in range(2 * lvl):
            for part in range(8):
                yield ("reads", name, j, part)
    for name in ("pattern", "misc", "arrangement", "mixer") if lvl == 1 else templates.SECTIONS:
        for part in range(16):
            yield ("pairs", name, part)
    for k in range(len(pairs())):
        for il in range(70):
            yield ("inter", k, il)
    for k in range(len(pairs())):
        yield ("bad", k)
    for name in templates.SECTIONS:
        for j in range(lvl):
            for part in range(8):
                yield ("cross", name, j, part)


# -- read operations
def describe(v):
    if isinstance(v, Raises):
        return v[:2]
    v = norm(v)
    if isinstance(v, (type(None), bool, int, float, str, bytes)):
        return v
    if isinstance(v, dict):
        return tuple((describe(k), describe(x)) for k, x in v.items())
    if isinstance(v, tuple):
        return tuple(describe(x) for x in v)
    if hasattr(v, "events"):
        return (type(v).__name__, tuple(int(e.id) for e in v.events))
    return type(v).__name__


def ops(tree):
    """All read operations: (path, what, argument)."""
    for path, node in tree.walk():
        for a in list(node.attrs) + list(node.subs) + [n for n in node.lists if n in ("groups", "notes", "controllers", "timemarkers", "tracks", "envelopes", "lfos")]:
            yield (path, "get", a)
        for w in ("repr", "str", "len", "iter", "first", "last", "slice", "eq", "ne", "hash", "bool", "contains", "name", "dir"):
            yield (path, w, None)


def perform(proj, tree, op):
    path, what, arg = op
    o = real.get(proj, tree, path)
    if what == "get":
        fn = lambda: getattr(o, arg)
    elif what == "repr":
        fn = lambda: (repr(o), None)[1]
    elif what == "str":
        fn = lambda: (str(o), None)[1]
    elif what == "len":
        fn = lambda: len(o)
    elif what == "iter":
        fn = lambda: [x for x in o]
    elif what == "first":
        fn = lambda: o[0]
    elif what == "last":
        fn = lambda: o[-1]
    elif what == "slice":
        fn = lambda: o[0:2]
    elif what == "eq":
        fn = lambda: o == real.get(proj, tree, path)
    elif what == "ne":
        fn = lambda: o != proj
    elif what == "hash":
        fn = lambda: (hash(o), None)[1]
    elif what == "bool":
        fn = lambda: bool(o)
    elif what == "contains":
        fn = lambda: o in [o]
    elif what == "name":
        fn = lambda: o["no such name"]
    else:
        fn = lambda: (dir(o), vars(o) if hasattr(o, "__dict__") else None, None)[2]
    return describe(real.outcome_raw(fn))


def run(case, ctx):
    kind = case[0]
    ctx.count(kind)
    if kind == "reads":
        st = templates.SECTIONS[case[1]](case[2])
        raw = flpfmt.encode(st)
        ctx.state(raw)
        tree = spec.build(st)
        proj = real.parse_bytes(ctx, raw)
        for n, op in enumerate(ops(tree)):
            if n % 8 != case[3]:
                continue
            a = perform(proj, tree, op)
            if not unchanged(ctx, proj, raw, "after reading %s" % label(op)):
                proj = real.parse_bytes(ctx, raw)
            b = perform(proj, tree, op)
            ctx.step(2)
            ctx.trace()
            ctx.state((case[1], case[2], n))
            if a != b:
                ctx.fail("reading %s twice: %s then %s" % (label(op), engine.short(a), engine.short(b)))
        ctx.step(real.compare(ctx, tree, proj))
        unchanged(ctx, proj, raw, "after reading everything")
    elif kind == "pairs":
        pairs_of_reads(ctx, case)
    elif kind == "inter":
        interleave(ctx, case)
    elif kind == "bad":
        bad_parses(ctx, case)
    else:
        cross(ctx, case)


def label(op):
    return "%s(%s%s)" % (op[1], real.show(op[0]), "." + op[2] if op[2] else "")


def unchanged(ctx, proj, raw, what):
    got = real.save_bytes(ctx, proj)
    ctx.step()
    if got != raw:
        ctx.fail("%s the saved file changed: %s" % (what, real.diff(raw, got)))
        return False
    return True


def pairs_of_reads(ctx, case):
    st = templates.SECTIONS[case[1]](0)
    raw = flpfmt.encode(st)
    tree = spec.build(st)
    seen, reps = set(), []
    for op in ops(tree):            # one representative per (class of object, operation), two per collection position
        node = spec.resolve(tree, op[0])
        key = (node.cls, op[1], op[2])
        if key not in seen:
            seen.add(key)
            reps.append(op)
    if ctx.lvl == 1:
        reps = [o for n, o in enumerate(reps) if o[1] != "get" or n % 6 == 0]
    proj = real.parse_bytes(ctx, raw)
    alone = [perform(proj, tree, o) for o in reps]
    for x, a in enumerate(reps):
        if x % 16 != case[2]:
            continue
        for y, b in enumerate(reps):
            perform(proj, tree, a)
            got = perform(proj, tree, b)
            ctx.step(2)
            ctx.trace()
            if got != alone[y]:
                ctx.fail("%s reads %s after %s, %s alone" % (label(b), engine.short(got), label(a), engine.short(alone[y])))
        ctx.state(("pairs", case[1], x))
        if not unchanged(ctx, proj, raw, "after pairs starting with %s" % label(a)):
            proj = real.parse_bytes(ctx, raw)


class Side:
    def __init__(self, ctx, st, name):
        self.ctx, self.st, self.name = ctx, st, name
        self.proj = None
        tree = spec.build(st)
        self.writes = []
        for path, node, a, c in spec.writable(tree, False):
            self.writes.append((path, a))
        self.n = 0

    def do(self, what):
        ctx = self.ctx
        if what == "parse":
            self.proj = real.parse_bytes(ctx, flpfmt.encode(self.st), self.name + ".flp")
        elif what == "read":
            ctx.step(real.compare(ctx, spec.build(self.st), self.proj))
        elif what == "write":
            for k in range(3):
                path, a = self.writes[(self.n * 7 + k * len(self.writes) // 3) % len(self.writes)]
                self.n += 1
                self.st = write(ctx, self.proj, self.st, path, a)
        elif what == "save":
            got = real.save_bytes(ctx, self.proj, "out-" + self.name)
            want = flpfmt.encode(self.st)
            ctx.step()
            if got != want:
                ctx.fail("project %s: saved file differs: %s" % (self.name, real.diff(want, got)))
        ctx.step()


def write(ctx, proj, st, path, a, vi=0):
    tree = spec.build(st)
    cell = spec.resolve(tree, path).attrs[a]
    vals = cell.few()
    if not vals:
        return st
    v = vals[vi % len(vals)]
    w = cell.write(v)
    got = real.outcome(lambda: setattr(real.get(proj, tree, path), a, real.convert(v)))
    ctx.step()
    if isinstance(w, Raises):
        return st
    if got is not None:
        ctx.fail("setting %s.%s = %r raises %s" % (real.show(path), a, v, got))
        return st
    return spec.apply(st, w)


def interleave(ctx, case):
    a, b = pairs()[case[1]]
    A, B = Side(ctx, a, "a"), Side(ctx, b, "b")
    pos = list(itertools.combinations(range(8), 4))[case[2]]
    ia = ib = 0
    trail = []
    for k in range(8):
        if k in pos:
            s, ia = STEPS[ia], ia + 1
            A.do(s)
            trail.append("a." + s)
        else:
            s, ib = STEPS[ib], ib + 1
            B.do(s)
            trail.append("b." + s)
        ctx.state((case[1], tuple(trail)))
        if ctx.fails:
            ctx.fail("history: " + " ".join(trail))
            return
    for X in (A, B):
        X.do("read")
        X.do("save")
    ctx.trace()


def bad_parses(ctx, case):
    """A failing parse between any two steps of the other project's life."""
    st = pairs()[case[1]][0]
    full = flpfmt.encode(st)
    bad = [full[:10], full[:-1], b"FLhd" + full[4:12] + b"\1\0" + full[14:], full[:22],
           flpfmt.header(0, 1, 96, 5) + b"\xcb\x04a\0b"]
    g = Gen(0).head(False)
    g.plug("BooBass", g.native("BooBass"))
    body = flpfmt.enc_events(tuple(g.ev)) + b"\xcb\x7fabc"
    bad.append(flpfmt.header(0, 1, 96, len(body)) + body)     # fails after a plugin name was seen
    for n, junk in enumerate(bad):
        for where in range(5):
            X = Side(ctx, pairs()[case[1]][1], "x")
            for k, s in enumerate(STEPS + ("read",)):
                if k == where:
                    got = real.outcome_raw(lambda: real.parse_bytes(ctx, junk, "bad.flp"))
                    ctx.step()
                    if not isinstance(got, Raises):
                        ctx.fail("damaged file %d was accepted" % n)
                X.do(s)
            X.do("save")
            ctx.state((case[1], n, where))
            ctx.trace()


def cross(ctx, case):
    st = templates.SECTIONS[case[1]](case[2])
    raw = flpfmt.encode(st)
    tree = spec.build(st)
    one, two = real.parse_bytes(ctx, raw, "one.flp"), real.parse_bytes(ctx, raw, "two.flp")
    cur = st
    n = 0
    for path, node, a, c in spec.writable(tree):
        n += 1
        if n % 8 != case[3]:
            continue
        if spec.structural(node, a):
            real.outcome(lambda: setattr(real.get(one, tree, path), a, real.convert(c.few()[1])))
            one = real.parse_bytes(ctx, flpfmt.encode(cur), "one.flp")
        else:
            cur = write(ctx, one, cur, path, a, 1)
        ctx.state((case[1], case[2], n))
        ctx.trace()
        unchanged(ctx, two, raw, "after setting %s.%s in another project" % (real.show(path), a))
        got = real.outcome(lambda: getattr(real.get(two, tree, path), a))
        ctx.step()
        if not real.same(got, c.value()):
            ctx.fail("%s.%s reads %s after the same attribute of another project was set, expected %s" % (
                real.show(path), a, engine.short(got), engine.short(c.value())))
    ctx.step(real.compare(ctx, tree, two))
    fresh = real.parse_bytes(ctx, raw, "three.flp")
    ctx.step(real.compare(ctx, tree, fresh))
    unchanged(ctx, fresh, raw, "freshly parsed after writes to another project")
