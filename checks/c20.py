"""C20: plugin data is interpreted by its own plugin name."""
import itertools
import struct

from mc import engine, flpfmt, real, spec, templates, writes
from mc.codecs import Raises
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["plugin data has the full size of its plugin", "generators are in channels, effects in slots", "at most one VST record of a kind",
               "a plugin assigned is one of a supported type"]
GEN = ("BooBass", "Fruit Kick", "Plucked!")
UNKNOWN = ("", "Sytrus", "boobass", "BooBass ", "Fruity", "Fruity Wrapper2", "fruity wrapper", "Fruity Balance\u00e9", "None")
RECS = (1, 2, 30, 31, 32, 50, 51, 52, 53, 54, 55, 56)


def BOUNDS(tier):
    return {"names": "all sequences of up to %d name / data / other events over 7 names; every supported and %d unknown names alone" % (5 if tier == "quick" else 6, len(UNKNOWN)),
            "channels and slots": "all triples of plugins over 3 channels and over 3 slots, all pairs across them, with and without own name / wrapper",
            "VST records": "all %d subsets of the 12 records%s, all orders of 5" % (4096, "" if tier != "quick" else " (reads; writes on all subsets of the 7 exposed records)"),
            "VST flags": "every flag x {set, clear} x %d backgrounds, all pairs of flags" % 6,
            "assignment": "all ordered pairs of plugins, over channels and over slots; every plugin to a channel and slot storing each subset of name, wrapper and data"}


def cases(tier):
    depth = 5 if tier == "quick" else 6
    for first in range(len(ALPHA)):
        for second in range(len(ALPHA)):
            yield ("seq", depth, first, second)
    for v in ("20.8.4", "11.4.0"):
        for n in (tuple(spec.NATIVE) + (spec.VST, spec.NOTEBOOK)):
            yield ("single", v, n)
        yield ("unknown", v)
    ch = (None,) + GEN + (spec.VST, "", "Sytrus")
    for a in range(len(ch)):
        for b in range(len(ch)):
            yield ("chans", a, b)
    sl = len(slot_names())
    for a in range(sl):
        for b in range(sl):
            yield ("slots", a, b)
    for a in range(len(ch)):
        yield ("across", a)
    for lo in range(0, 4096, 64):
        yield ("subsets", lo)
    for k in range(120):
        yield ("orders", k)
    for f in range(sum(map(len, spec.VST_FLAGS.values()))):
        yield ("flags", f)
    for k in range(12):
        yield ("lengths", k)
    for k in range(8):
        yield ("wrapper", k)
    names = GEN + (spec.VST,)
    for a in names:
        yield ("assign", a, "channel")
        yield ("refuse", a, "channel")
    for a in spec.EFFECTS + (spec.VST, spec.NOTEBOOK):
        yield ("assign", a, "slot")
        yield ("refuse", a, "slot")


def run(case, ctx):
    ctx.count(case[0])
    globals()["run_" + case[0]](ctx, *case[1:])


def slot_names():
    return (None,) + spec.EFFECTS + (spec.VST, spec.NOTEBOOK, "Sytrus")


def data_for(g, name, longer=False):
    if name == spec.VST:
        return g.vst((2, 54, 1))
    if name == spec.NOTEBOOK:
        return g.notebook()
    if name in spec.NATIVE:
        return g.native(name, longer)
    return g.filler(g.pick((0, 1, 5, 12, 36)))


# --------------------------------------------------------------------------- which name decides
ALPHA = ("BooBass", "Fruity Balance", spec.VST, "", "Sytrus", "D", "name")


def run_seq(ctx, depth, first, second):
    """N(name) and D(ata) events in any order: the closest preceding name decides."""
    for n in range(0, depth - 1):
        for rest in itertools.product(ALPHA, repeat=n):
            seq = (ALPHA[first], ALPHA[second]) + rest
            if "D" not in seq:
                continue
            g = Gen(len(rest)).head(False)
            cur, want = None, []
            for s in seq:
                if s == "D":
                    want.append((len(g.ev), cur))
                    g.raw(213, data_for(g, cur))
                elif s == "name":
                    g.t(203, "BooBass")     # the display name says nothing
                else:
                    cur = s
                    g.t(201, s)
            st = g.state()
            proj = real.parse_state(ctx, st)
            evs = list(proj.events)
            ctx.state(flpfmt.encode(st))
            ctx.trace()
            for k, name in want:
                e = evs[k]
                ctx.step()
                plain = isinstance(e.value, bytes)
                if plain != (name in (None, "", "Sytrus")):
                    return ctx.fail("%s: data event %d is %s" % (seq, k, type(e).__name__))
                if plain and e.value != st.events[k][1]:
                    return ctx.fail("%s: data event %d holds %r" % (seq, k, e.value))
                if name == "BooBass" and not ctx.eq((e["bass"], e["mid"], e["high"]), struct.unpack("<III", st.events[k][1]), "%s: %d" % (seq, k)):
                    return
                if name == "Fruity Balance" and not ctx.eq((e["pan"], e["volume"]), struct.unpack("<iI", st.events[k][1]), "%s: %d" % (seq, k)):
                    return
            if not real.check_saved(ctx, proj, st, str(seq)):
                return


def run_single(ctx, version, name):
    """Every supported plugin, both sizes, every attribute read and written, next to another of its kind."""
    gen = name in GEN
    for j in range(6 if ctx.lvl == 1 else 40):
        for longer in (False, True):
            g = Gen(j, version).head(False).groups(1)
            if gen or (name == spec.VST and j % 2):
                for i in range(2):
                    g.channel(i, 2).plug(name, data_for(g, name, longer), wrapper=(i + j) % 3 != 0).s(0)
            else:
                g.channel(0, 2).s(0)
            g.insert_head()
            if not gen:
                for i in range(2):
                    g.slot(i, name, data_for(g, name, longer))
            g.slot(2).insert_tail()
            st = g.state()
            proj = real.check_project(ctx, st, True, "%s %d" % (name, j))
            if not real.check_saved(ctx, proj, st, name):
                return
            tree = spec.build(st)
            for path, node, a, cell in list(spec.writable(tree, False)):
                if ("s", "plugin") not in path:
                    continue
                vals = spec.resolve(tree, path).attrs[a].few()
                st, tree = writes.step(ctx, proj, st, tree, path, a, vals[j % len(vals)])
                if len(ctx.fails) > 2:
                    return
            ctx.step(real.compare(ctx, tree, proj, (), list(proj.events), True))
            again = real.parse_bytes(ctx, real.save_bytes(ctx, proj))
            ctx.step(real.compare(ctx, tree, again))
            if ctx.fails:
                return


def run_unknown(ctx, version):
    for name in UNKNOWN:
        if version == "11.4.0" and any(ord(c) > 127 for c in name):
            continue
        for n in (0, 1, 4, 8, 12, 16, 20, 32, 36, 200):
            g = Gen(n, version).head(False).groups(1)
            g.channel(0, 2).plug(name, bytes(range(n))).s(0)
            g.insert_head().slot(0, name, bytes(range(n))).slot(1).insert_tail()
            st = g.state()
            proj = real.check_project(ctx, st, True, "%r" % name)
            real.check_saved(ctx, proj, st, name)
            for e, (i, p) in zip(proj.events, st.events):
                if i == 213:
                    ctx.eq(e.value, p, "data of %r" % name)
            for obj in (next(iter(proj.channels)), next(iter(next(iter(proj.mixer))))):
                w = obj.plugin.width
                obj.plugin.width = 77
                ctx.eq((obj.plugin.width, obj.plugin.visible), (77, obj.plugin.visible), "window width of %r" % name)
                obj.plugin.width = w
            real.check_saved(ctx, proj, st, "%r after restoring" % name)


def run_chans(ctx, a, b):
    names = (None,) + GEN + (spec.VST, "", "Sytrus")
    for c in range(len(names)):
        for wrap in (True, False):
            g = Gen(a + b + c).head(False).groups(1)
            for i, n in enumerate((names[a], names[b], names[c])):
                g.channel(i, 2)
                if n is not None:
                    g.t(201, n)
                    if wrap or i == 1:
                        g.wrapper()
                    g.raw(213, data_for(g, n, c % 2 == 1))
                g.s(0)
            st = g.state()
            real.check_project(ctx, st, True, "channels with %s" % ((names[a], names[b], names[c]),))
    # the third without a name of its own: the data is read as the closest name before it says
    g = Gen(a * 3 + b).head(False).groups(1)
    cur = None
    for i, n in enumerate((names[a], names[b], "-")):
        g.channel(i, 2)
        if n not in (None, "-"):
            g.t(201, n)
            cur = n
        if n is not None:
            g.wrapper().raw(213, data_for(g, cur))
    real.check_project(ctx, g.state(), True, "channels with %s and an unnamed one" % ((names[a], names[b]),))


def run_slots(ctx, a, b):
    names = slot_names()
    for c in range(len(names)):
        g = Gen(a + b + c).head(False).groups(1)
        g.channel(0, 2).plug("BooBass", data_for(g, "BooBass"))
        g.insert_head()
        for i, n in enumerate((names[a], names[b], names[c])):
            if n is not None:
                g.t(201, n)
                if (a + i) % 3:
                    g.wrapper()
                g.raw(213, data_for(g, n, (b + i) % 2 == 1))
            g.raw(98, u16(i))
        g.insert_tail()
        real.check_project(ctx, g.state(), True, "slots with %s" % ((names[a], names[b], names[c]),))
        if ctx.fails:
            return


def run_across(ctx, a):
    names = (None,) + GEN + (spec.VST, "", "Sytrus")
    sl = slot_names()
    for b in range(len(sl)):
        for c in range(len(sl)):
            g = Gen(a + b * 2 + c).head(False).groups(1)
            g.channel(0, 2)
            if names[a] is not None:
                g.plug(names[a], data_for(g, names[a]), wrapper=c % 2 == 0)
            g.channel(1, 2).s(0)
            for n in (sl[b], sl[c]):
                g.insert_head()
                if n is not None:
                    g.plug(n, data_for(g, n), wrapper=b % 2 == 0)
                g.raw(98, u16(0)).raw(98, u16(1)).insert_tail()
            real.check_project(ctx, g.state(), True, "channel %s, slots %s %s" % (names[a], sl[b], sl[c]))
            if ctx.fails:
                return


# --------------------------------------------------------------------------- VST
EXPOSED = (1, 2, 51, 52, 53, 54, 55, 56)


def vst_project(j, ids):
    g = Gen(j).head(False).groups(1)
    g.channel(0, 2).plug(spec.VST, g.vst(ids)).s(0)
    g.channel(1, 2).plug(spec.VST, g.vst()).s(0)
    return g.state()


def run_subsets(ctx, lo):
    for m in range(lo, lo + 64):
        ids = [r for i, r in enumerate(RECS) if m >> i & 1]
        st = vst_project(m, ids)
        proj = real.check_project(ctx, st, False, "VST records %s" % ids)
        if ctx.fails:
            return
        if ctx.lvl == 1 and m & 0b111100:   # the records nothing is exposed of
            continue
        tree = spec.build(st)
        base = (("s", "channels"), ("l", "channels", 0), ("s", "plugin"))
        for path, node in list(spec.resolve(tree, base).walk(base)):
            for a, c in node.attrs.items():
                if not isinstance(c, spec.VSTCell):
                    continue
                cell = spec.resolve(tree, path).attrs[a]
                vals = cell.few()
                v = vals[m % len(vals)]
                if not cell.present():      # no such record: refused, nothing changes
                    got = real.outcome(lambda: setattr(real.get(proj, tree, path), a, real.convert(v)))
                    ctx.step()
                    if not real.same(got, spec.PCBS):
                        return ctx.fail("VST records %s: setting %s gives %s" % (ids, a, got))
                    continue
                st, tree = writes.step(ctx, proj, st, tree, path, a, v, save=False)
                if ctx.fails:
                    return
        real.check_saved(ctx, proj, st, "VST records %s" % ids)
        ctx.trace()


def run_orders(ctx, k):
    ids = list(itertools.permutations((1, 2, 51, 53, 54)))[k]
    st = vst_project(k, ids)
    proj = real.check_project(ctx, st, False, "VST records %s" % (ids,))
    tree = spec.build(st)
    for path, node, a, cell in list(spec.writable(tree, False)):
        if isinstance(cell, spec.VSTCell) and path[1][2] == 0:
            vals = spec.resolve(tree, path).attrs[a].few()
            st, tree = writes.step(ctx, proj, st, tree, path, a, vals[k % len(vals)])
            if ctx.fails:
                return


def all_flags():
    return [(s, a, c) for s, t in spec.VST_FLAGS.items() for a, c in t.items()]


def run_flags(ctx, f):
    s, a, c = all_flags()[f]
    for bg in (b"\0" * 8, b"\xff" * 8, b"\xaa" * 8, b"\x55" * 8, bytes(range(8)), b"\x80\1\x40\2\x20\4\x10\x08"):
        rec = b"123456789" + bg + b"abcde" + bytes((bg[0] & 1,)) + b"tail"
        d = u32(10) + struct.pack("<IQ", 2, len(rec)) + rec + struct.pack("<IQ", 54, 2) + b"nm"
        g = Gen(0).head(False).groups(1)
        g.channel(0, 2).t(201, spec.VST).raw(213, d)
        st0 = g.state()
        path = (("s", "channels"), ("l", "channels", 0), ("s", "plugin"), ("s", s))
        real.check_project(ctx, st0, False, "flags " + bg.hex())
        for s2, a2, _ in [(s, a, c)] + all_flags():
            p2 = path[:3] + (("s", s2),)
            for v, v2 in itertools.product((True, False), repeat=2):
                proj = real.parse_state(ctx, st0)
                st, tree = st0, spec.build(st0)
                st, tree = writes.step(ctx, proj, st, tree, path, a, v, save=False)
                st, tree = writes.step(ctx, proj, st, tree, p2, a2, v2)
                ctx.trace()
                if ctx.fails:
                    return
        ctx.step(real.compare(ctx, tree, proj))


def refused(ctx, fn, what):
    got = real.outcome(fn)
    ctx.step()
    if not real.same(got, spec.PCBS):
        ctx.fail("%s gives %s" % (what, got))


def run_lengths(ctx, k):
    """Longer records keep what is not understood, shorter ones (ending at a field) refuse what they have no place for."""
    g = Gen(k)
    midi = g.vst_record(1)[12:]
    flags = g.vst_record(2)[12:]
    for nm in (0, 4, 8, 12, 13, 16, 20, 21, 40)[k % 6::6]:
        for nf in (0, 9, 13, 17, 22, 23, 24, 29, 30, 60):
            m, f = (midi + g.filler(40))[:nm], (flags + g.filler(60))[:nf]
            recs = [(1, m), (2, f), (54, b"name"), (57, g.filler(k)), (53, g.filler(130 * k))]
            d = u32(8 if k % 2 else 10)
            for r, x in recs[::-1] if k > 5 else recs:
                d += struct.pack("<IQ", r, len(x)) + x
            g2 = Gen(k).head(False).groups(1)
            g2.channel(0, 2).t(201, spec.VST).raw(213, d)
            st = g2.state()
            proj = real.check_project(ctx, st, False, "records of %d, %d bytes" % (nm, nf))
            tree = spec.build(st)
            for path, node, a, cell in list(spec.writable(tree, False)):
                if isinstance(cell, spec.VSTCell):
                    cell = spec.resolve(tree, path).attrs[a]
                    vals = cell.few()
                    v = vals[(k + nf) % len(vals)]
                    if cell.present():
                        st, tree = writes.step(ctx, proj, st, tree, path, a, v)
                    else:
                        refused(ctx, lambda: setattr(real.get(proj, tree, path), a, real.convert(v)), "records of %d, %d bytes: setting %s" % (nm, nf, a))
                        real.check_saved(ctx, proj, st, "after the refusal of " + a)
                    if ctx.fails:
                        return
            ctx.step(real.compare(ctx, tree, proj))
            ctx.trace()


def run_wrapper(ctx, k):
    """The wrapper of each channel and slot is its own; every shorter form."""
    sizes = spec.boundaries(212) + [spec.FULL[212] + 8]
    for n in sizes:
        for m in sizes:
            g = Gen(k).head(False).groups(1)
            g.channel(0, 2).t(201, "BooBass").raw(212, g.struct(212, n)).raw(213, g.native("BooBass"))
            g.channel(1, 2).t(201, "Sytrus").raw(213, g.filler(3)).raw(212, g.struct(212, m))
            g.insert_head()
            g.t(201, "Fruity Balance").raw(212, g.struct(212, m)).raw(213, g.native("Fruity Balance")).raw(98, u16(0))
            g.t(201, "Fruity Send").raw(213, g.native("Fruity Send")).raw(98, u16(1))
            g.t(201, "Sytrus").raw(213, b"xx").raw(212, g.struct(212, n)).raw(98, u16(2))
            g.insert_tail()
            st = g.state()
            proj = real.check_project(ctx, st, True, "wrappers of %d and %d bytes" % (n, m))
            if ctx.fails:
                return
            if n == m:
                tree = spec.build(st)
                for path, node, a, cell in list(spec.writable(tree, False)):
                    if a in spec.WRAPPER and ("s", "plugin") in path:
                        vals = spec.resolve(tree, path).attrs[a].few()
                        st, tree = writes.step(ctx, proj, st, tree, path, a, vals[k % len(vals)])


def run_refuse(ctx, b, where):
    """Every choice of what the target stores (name, wrapper, data) and of whether the source has a wrapper."""
    for name, wrap, data, swrap, longer in itertools.product((True, False), repeat=5):
        g = Gen(len(b) + wrap).head(False).groups(1)
        full = ("BooBass" if where == "channel" else "Fruity Balance") if longer else ""
        if where == "slot":
            g.insert_head()
        for i in range(2):
            if where == "channel":
                g.channel(i, 2)
            if i == 0:
                if name:
                    g.t(201, full)
                if wrap:
                    g.wrapper()
                if data:
                    g.raw(213, data_for(g, full if name else ""))
            else:
                g.plug(b, data_for(g, b), swrap)
            if where == "slot":
                g.raw(98, u16(i))
        if where == "slot":
            g.insert_tail()
        st = g.state()
        proj = real.parse_state(ctx, st)
        get = lambda: list(proj.channels) if where == "channel" else list(next(iter(proj.mixer)))
        items = get()
        what = "%s without %s given a %s %s wrapper" % (where, [n for n, x in (("name", name), ("wrapper", wrap), ("data", data)) if not x], b, "with" if swrap else "without")
        fn = lambda: setattr(items[0], "plugin", items[1].plugin)
        ctx.state(flpfmt.encode(st))
        if name and data and (swrap or not wrap):
            fn()
            k1 = next(k for k, e in enumerate(st.events) if e[0] == 201)
            new = st.with_event(k1, T(b))
            for i in (212, 213):
                ks = [k for k, e in enumerate(st.events) if e[0] == i]
                if i == 213 or wrap:
                    new = new.with_event(ks[0], st.events[ks[1]][1])
            st = new
        else:
            got = real.outcome(fn)
            if name and data:       # the source has nothing to put in the place of the wrapper: any error will do
                if got is None:
                    ctx.fail("%s: no error" % what)
            elif not real.same(got, spec.PCBS):
                ctx.fail("%s: %s" % (what, got))
        ctx.step()
        real.check_saved(ctx, proj, st, what)
        ctx.step(real.compare(ctx, spec.build(st), proj))
        ctx.trace()
        if ctx.fails:
            return


def run_assign(ctx, a, where):
    others = GEN + (spec.VST,) if where == "channel" else spec.EFFECTS + (spec.VST, spec.NOTEBOOK)
    for b in others:
        g = Gen(len(a) + len(b)).head(False).groups(1)
        if where == "channel":
            for i, n in enumerate((a, b)):
                g.channel(i, 2).plug(n, data_for(g, n, i == 1)).s(0)
        else:
            g.insert_head()
            for i, n in enumerate((a, b)):
                g.slot(i, n, data_for(g, n, i == 1))
            g.insert_tail()
        st = g.state()
        proj = real.parse_state(ctx, st)
        idx = lambda i: [k for k, (e, _) in enumerate(st.events) if e == i]
        get = lambda: list(proj.channels) if where == "channel" else list(next(iter(proj.mixer)))
        held = get()[0]
        plug = held.plugin
        items = get()
        items[0].plugin = items[1].plugin
        new = st.with_event(idx(201)[0], T(b))
        for i in (212, 213):
            new = new.with_event(idx(i)[0], st.events[idx(i)[1]][1])
        ctx.state(flpfmt.encode(new))
        real.check_saved(ctx, proj, new, "%s replaced by %s" % (a, b))
        tree = spec.build(new)
        ctx.step(real.compare(ctx, tree, proj))
        ctx.eq(type(held.plugin).__name__, type(items[1].plugin).__name__, "plugin of an older handle")
        again = real.parse_bytes(ctx, real.save_bytes(ctx, proj))
        ctx.step(real.compare(ctx, tree, again))
        ctx.trace()
        if ctx.fails:
            return
