"""C08: a write takes effect or raises and changes nothing."""
from mc import engine, flpfmt, real, spec, templates, writes
from mc.codecs import Raises
from mc.templates import Gen, T, u8, u16, u32
from checks import c05

LEVEL = "model_checking"
ASSUMPTIONS = ["which error a write must raise is stated in mc/spec.py from the documentation (PropertyCannotBeSet, KeyError for the echo-delay mod pair, AttributeError for read-only values, ValueError / TypeError for documented ranges)"]


def BOUNDS(tier):
    return {"absent": "every single removable event of every section removed, every structure cut at every field boundary; every then-unavailable attribute written",
            "read-only": "every read-only attribute of every section", "ranges": "tempo 0..1100 + fractions x 9 versions, all 65536+ PPQs, channel counts -300..300, 260 note keys + malformed names, malformed versions",
            "backgrounds": 1 if tier == "quick" else 4}


def cases(tier):
    for name in templates.SECTIONS:
        for j in range(-1, 1 if tier == "quick" else 4):
            st = templates.SECTIONS[name](j)
            yield ("plain", name, j)
            for k, (i, p) in enumerate(st.events):
                if i in spec.LAYOUT and i != 217:
                    for b in spec.boundaries(i):
                        if b < len(p):
                            yield ("cut", name, j, k, b)
                if c05.removable(st, k):
                    yield ("drop", name, j, k)
    for v in ("20.8.4", "11.0.0", "10.9.9", "12.0.1", "1.4.1", "1.4.2", "3.3.9", "3.4.0", "1.0.0"):
        for form in range(4):
            yield ("tempo", v, form)
    for hi in range(0, 65536 if tier == "quick" else 1 << 18, 4096):
        yield ("ppq", hi)
    yield ("count",)
    for k in range(3):
        yield ("key", k)
    yield ("version",)


def run(case, ctx):
    kind = case[0]
    ctx.count(kind)
    if kind in ("plain", "cut", "drop"):
        st = templates.SECTIONS[case[1]](case[2])
        if kind == "cut":
            st = st.with_event(case[3], st.events[case[3]][1][:case[4]])
        elif kind == "drop":
            st = st.without(*case[3:])
        refused(ctx, st, kind == "plain")
    else:
        globals()[kind](ctx, *case[1:])


def refused(ctx, st, readonly):
    raw = flpfmt.encode(st)
    ctx.state(raw)
    tree = spec.build(st)
    proj = real.parse_bytes(ctx, raw)
    tried = 0
    for path, node in tree.walk():
        for attr, cell in node.attrs.items():
            if cell.present() or cell.ro is spec.REF:
                continue
            if cell.ro is not None:
                if not readonly:
                    continue
                want, vals = cell.ro, [1, "x", None]
            else:
                vals = cell.few()[:2] or [1]
                want = cell.write(vals[0])
            for v in vals:
                what = "%s.%s = %s" % (real.show(path), attr, engine.short(v))
                got = writes.set_attr(ctx, proj, tree, path, attr, v)
                tried += 1
                if got is None:
                    ctx.fail("%s: accepted, expected %s" % (what, want[1:]))
                elif not real.same(got, want):
                    ctx.fail("%s: raises %s, expected %s" % (what, got[1], want[1:]))
    ctx.trace()
    ctx.count("refused writes", tried)
    same(ctx, proj, st, tree, "after %d refused writes" % tried)


def same(ctx, proj, st, tree, what):
    real.check_saved(ctx, proj, st, what)
    n = len(ctx.fails)
    ctx.step(real.compare(ctx, tree, proj))
    for k in range(n, len(ctx.fails)):
        ctx.fails[k] = what + ": " + ctx.fails[k]


def ranged(ctx, st, path, attr, vals):
    """Writes the values in turn: accepted ones must take effect, the others raise and change nothing."""
    proj = real.parse_bytes(ctx, flpfmt.encode(st))
    tree = spec.build(st)
    for v in vals:
        before = len(ctx.fails)
        st, tree = writes.step(ctx, proj, st, tree, path, attr, v)
        if len(ctx.fails) > before + 3:
            return
    ctx.trace()
    same(ctx, proj, st, tree, "at the end")


def tempo(ctx, version, form):
    base = ((199, T(version, "ascii")),)
    evs = (base + ((156, u32(120000)),), base + ((66, u16(120)), (93, u16(0))), base + ((156, u32(120000)), (66, u16(120)), (93, u16(0))),
           base + ((66, u16(120)),))[form]
    vals = list(range(0, 1101)) + [-1, -10, 5000, 65536, 10 ** 9]
    fine = form != 3
    old = tuple(int(x) for x in version.split(".")) < (3, 4, 0)
    fr = [9.999, 9.5, 0.0, -1.0, 10.001, 521.999, 522.001, 522.5, 998.999, 999.001, 999.5, 1e6, 120.5, 0.001, 1000.0]
    if fine:
        vals += fr + [10.0, 522.0, 999.0]
    elif old:
        vals += fr
    else:       # only refusals: a fraction cannot be stored without the fine tempo event
        hi = 999 if version in ("10.9.9", "3.4.0", "1.4.2", "3.3.9") else 522
        vals += [f for f in fr if not 10 <= f <= hi]
    ranged(ctx, flpfmt.State(evs), (), "tempo", vals)


def ppq(ctx, hi):
    st = flpfmt.State(((199, T("20.8.4", "ascii")),))
    proj = real.parse_bytes(ctx, flpfmt.encode(st))
    for v in list(range(hi, hi + 4096)) + [-v for v in flpfmt.PPQS]:
        got = real.outcome(lambda: setattr(proj, "ppq", v))
        ctx.step()
        ctx.state(("ppq", v))
        if v in flpfmt.PPQS:
            if got is not None:
                ctx.fail("ppq = %d refused" % v)
            else:
                st = st._replace(ppq=v)
        elif not real.same(got, Raises("ValueError")):
            ctx.fail("ppq = %d: %s, expected ValueError" % (v, got))
        if proj.ppq != st.ppq:
            return ctx.fail("ppq reads %r after trying %d" % (proj.ppq, v))
    ctx.trace()
    real.check_saved(ctx, proj, st, "ppq")


def count(ctx):
    st = flpfmt.State(((199, T("20.8.4", "ascii")),), channels=3)
    ranged(ctx, st, (), "channel_count", list(range(-300, 300)) + [-1, -65536, 65535, 32768, -2 ** 31])


def key(ctx, which):
    g = Gen(1).head(False)
    st = g.raw(65, u16(1)).raw(224, g.note(60) + g.note(131) + g.note(0)).state()
    names = [n + str(o) for n in spec.NOTE_NAMES for o in range(0, 13)]
    if which == 0:
        vals = list(range(-70, 200)) + [1000, -1000, 65535, 65536, 255, 256]
    elif which == 1:
        vals = names
    else:
        vals = ["H5", "c5", "C", "", "5", "Cb5", "E#4", "B#1", "C##1", "C 5", "5C", "C5 ", " C5", "C-1", "Q", "C#", "#5", "CC5"]
    bad = [v for v in vals if isinstance(v, str) and which == 2]
    path = (("s", "patterns"), ("l", "patterns", 0), ("l", "notes", 1))
    if not bad:
        return ranged(ctx, st, path, "key", vals)
    proj = real.parse_bytes(ctx, flpfmt.encode(st))
    tree = spec.build(st)
    for v in bad:
        got = writes.set_attr(ctx, proj, tree, path, "key", v)
        ctx.state(("key", v))
        if not real.same(got, Raises("ValueError")):
            ctx.fail("Note.key = %r: %s, expected ValueError" % (v, got))
        real.check_saved(ctx, proj, st, "Note.key = %r" % v)
    ctx.trace()


def version(ctx):
    st = flpfmt.State(((199, T("20.8.4.2576", "ascii")), (159, u32(2576)), (10, u8(1))))
    bad = ["20", "20.8", "", "20.8.4.2576.1", "a.b.c", "20.8.x", "20..4", "20.8.4.", ".20.8.4", "v20.8.4", (20,), (20, 8), (), (1, 2, 3, 4, 5)]
    for v in bad:
        proj = real.parse_bytes(ctx, flpfmt.encode(st))
        got = real.outcome(lambda: setattr(proj, "version", v))
        ctx.step()
        ctx.state(("version", repr(v)))
        if not real.same(got, Raises("ValueError")):
            ctx.fail("version = %r: %s, expected ValueError" % (v, got))
        same(ctx, proj, st, spec.build(st), "after version = %r" % (v,))
        ctx.trace()
