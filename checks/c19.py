"""C19: notes, controllers, clips and points are isolated records."""
import itertools
import struct

from mc import engine, flpfmt, real, spec, templates, writes
from mc.codecs import Raises
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["records of 32 bytes do not come in multiples of 15 (see the known finding of C13)", "note keys are within 0-131"]
KINDS = ("notes", "controllers", "items32", "items60", "points")
COUNTS = tuple(range(0, 14)) + (16, 17, 21, 22, 31, 32, 33, 63, 64, 127, 128, 129, 200, 255, 256, 257, 1000)


def BOUNDS(tier):
    return {"kinds": "notes, controllers, playlist items of both record sizes, automation points",
            "lists": "all record counts of %s" % (COUNTS,),
            "values": "every (record, attribute) x its values (complete for 8-bit fields, edges and every bit elsewhere), 3 records",
            "pairs": "all ordered pairs of (record, attribute) writes over %d records in each of two lists" % (3 if tier == "quick" else 4),
            "histories": "all histories of %d writes over 2 attributes x 2 records x 2 lists" % (4 if tier == "quick" else 5),
            "variants": "%d sweeps over every stored form of every field" % (40 if tier == "quick" else 400)}


def cases(tier):
    for kind in KINDS:
        for n in COUNTS:
            yield ("count", kind, n)
        for j in range(40 if tier == "quick" else 400):
            yield ("sweep", kind, j)
        for rec in range(3):
            for part in range(4):
                yield ("values", kind, rec, part)
        n = 3 if tier == "quick" else 4
        total = len(slots(kind, n))
        for a in range(total):
            yield ("pairs", kind, n, a)
        for a in range(8):
            for b in range(8):
                yield ("history", kind, a, b, 4 if tier == "quick" else 5)
    for k in range(6):
        yield ("positions", k)
    yield ("readonly",)


def run(case, ctx):
    ctx.count(" ".join(str(x) for x in case[:2] if isinstance(x, str)))
    globals()["run_" + case[0]](ctx, *case[1:])


def project(kind, n, j=0, m=None):
    """Two lists of n and m records of a kind, in two objects."""
    m = n if m is None else m
    g = Gen(j).head(False).groups(1)
    if kind == "notes":
        g.raw(65, u16(1)).raw(224, g.notes(n)).raw(223, g.controllers(2)).raw(65, u16(2)).raw(224, g.notes(m))
    elif kind == "controllers":
        g.raw(65, u16(1)).raw(223, g.controllers(n)).raw(224, g.notes(2)).raw(65, u16(2)).raw(223, g.controllers(m))
    elif kind == "points":
        g.channel(0, 5).s(203).raw(234, g.automation(n, 0))
        g.channel(1, 5).s(203).raw(234, g.automation(m, 48))
    else:
        size = int(kind[5:])
        g.channel(3, 0).s(203).channel(9, 0).s(203)
        g.raw(65, u16(1)).s(193).raw(65, u16(2)).s(193)
        items = (3, 20481, 20482, 9)
        for a, k in enumerate((n, m)):
            g.raw(99, u16(a)).raw(233, b"".join(g.plitem(499 - (i + a) % 2, items[(i + a) % 4], size=size) for i in range(k)))
            g.track(False).track(False)
        g.raw(100, u16(0))
    return g.state()


def records(tree, kind):
    """-> [(path, node)] of the records, list by list."""
    cls = {"notes": ("Note",), "controllers": ("Controller",), "points": ("AutomationPoint",)}.get(kind, ("ChannelPLItem", "PatternPLItem"))
    return [(p, n) for p, n in tree.walk() if n.cls in cls and not (kind == "controllers" and n.cls != "Controller")]


def slots(kind, n):
    """All (path, attribute) which can be written."""
    out = []
    for p, node in records(spec.build(project(kind, n)), kind):
        out += [(p, a) for a, c in node.attrs.items() if c.writable() and c.present()]
    return out


def run_count(ctx, kind, n):
    if kind == "items32" and n and n % 15 == 0:
        return
    m = max(0, n - 1) if not (kind == "items32" and (n - 1) % 15 == 0) else n
    st = project(kind, n, n, m)
    proj = real.check_project(ctx, st, True, "%d %s" % (n, kind))
    real.check_saved(ctx, proj, st, "%d %s" % (n, kind))
    # one write to the first, middle and last record
    tree = spec.build(st)
    recs = records(tree, kind)
    for i in sorted({0, len(recs) // 2, n - 1, n, len(recs) - 1}):
        if 0 <= i < len(recs):
            path, node = recs[i]
            for a, c in node.attrs.items():
                if c.writable() and c.present():
                    st, tree = writes.step(ctx, proj, st, tree, path, a, c.few()[i % len(c.few())])
        if len(ctx.fails) > 3:
            return
    if not ctx.fails:
        real.compare(ctx, tree, proj, (), list(proj.events), True)
        again = real.parse_bytes(ctx, real.save_bytes(ctx, proj))
        real.compare(ctx, tree, again, (), list(again.events), True)


def run_sweep(ctx, kind, j):
    st = project(kind, 2 + j % 3, j)
    proj = real.check_project(ctx, st, True, "%s %d" % (kind, j))
    real.check_saved(ctx, proj, st, "%s %d" % (kind, j))


def run_values(ctx, kind, rec, part):
    st = project(kind, 3, rec)
    tree = spec.build(st)
    proj = real.parse_state(ctx, st)
    path, node = records(tree, kind)[rec + (part % 2) * 3]
    for k, (a, c) in enumerate((a, c) for a, c in node.attrs.items() if c.writable() and c.present()):
        if k % 4 != part:
            continue
        for v in c.vals(ctx.lvl):
            st, tree = writes.step(ctx, proj, st, tree, path, a, v)
            if len(ctx.fails) > 3:
                return
        ctx.step(real.compare(ctx, tree, proj))
        ctx.trace()


def run_pairs(ctx, kind, n, first):
    st0 = project(kind, n)
    names = slots(kind, n)
    p1, a1 = names[first]
    for p2, a2 in names:
        st = st0
        proj = real.parse_state(ctx, st)
        tree = spec.build(st)
        for p, a in ((p1, a1), (p2, a2)):
            c = spec.resolve(tree, p).attrs[a]
            old = c.value()
            v = next((x for x in c.few() if real.expected_value(x) != old), c.few()[0])
            st, tree = writes.step(ctx, proj, st, tree, p, a, v)
        ctx.step(real.compare(ctx, tree, proj))
        ctx.trace()
        if ctx.fails:
            return


def run_history(ctx, kind, a, b, depth):
    st0 = project(kind, 2)
    names = []
    tree0 = spec.build(st0)
    recs = records(tree0, kind)
    for path, node in (recs[0], recs[1], recs[2], recs[3]):
        names += [(path, x) for x in [x for x, c in node.attrs.items() if c.writable() and c.present()][:2]]
    for rest in itertools.product(range(len(names)), repeat=depth - 2):
        st, tree = st0, tree0
        proj = real.parse_state(ctx, st)
        for n, k in enumerate((a, b) + rest):
            p, x = names[k]
            c = spec.resolve(tree, p).attrs[x]
            vals = c.few()
            st, tree = writes.step(ctx, proj, st, tree, p, x, vals[(n + 1) % len(vals)], save=n >= len(rest) + 1)
        ctx.trace()
        if ctx.fails:
            return


OFFSETS = (0.0, 1.0, 0.5, 2.25, 96.0, -1.0, 0.1)


def run_positions(ctx, part):
    """Positions of automation points are running sums, for all sequences of offsets."""
    for n in range(0, 5 if ctx.lvl == 1 else 6):
        for offs in itertools.product(OFFSETS, repeat=n):
            if n and OFFSETS.index(offs[0]) % 6 != part or (not n and part):
                continue
            p = b"\1\0\0\0" + u32(5) + bytes(9) + u32(n)
            for k, o in enumerate(offs):
                p += struct.pack("<ddf", o, k / 4, 0.5) + bytes((k, 0, 0, 2))
            e = real.channel.AutomationEvent(real.E.EventEnum(234), p)
            ctx.state(offs)
            if bytes(e) != flpfmt.enc_event(234, p):
                return ctx.fail("automation of offsets %s does not serialise back" % (offs,))
            if n >= 4 and sum(map(OFFSETS.index, offs)) % 5:
                total, want = 0.0, []
                for o in offs:
                    total += o
                    want.append(total)
                got = [q["position"] for q in e["points"]]
                ctx.step()
                if not real.same(tuple(got), tuple(want)):
                    return ctx.fail("offsets %s give positions %s" % (offs, got))
                continue
            st = flpfmt.State(((199, T("20.8.4", "ascii")), (231, T("g")), (64, u16(0)), (21, u8(5)), (145, u32(0)), (234, p)))
            proj = real.parse_state(ctx, st)
            clip = next(iter(proj.channels))
            total, want = 0.0, []
            for o in offs:
                total += o
                want.append(total)
            got = [q.position for q in clip]
            ctx.step()
            if not real.same(tuple(got), tuple(want)):
                return ctx.fail("offsets %s give positions %s" % (offs, got))
            for k, q in enumerate(list(clip)):
                out = real.outcome(lambda: setattr(q, "position", 7.0))
                if not real.same(out, spec.PCBS):
                    return ctx.fail("setting the position of point %d gives %s" % (k, out))
                q.value = 0.75
            got = [q.position for q in clip]
            if not real.same(tuple(got), tuple(want)):
                return ctx.fail("positions %s after writing values" % (got,))
            body = b"".join(struct.pack("<ddf", o, 0.75, 0.5) + bytes((k, 0, 0, 2)) for k, o in enumerate(offs))
            real.check_saved(ctx, proj, st.with_event(5, p[:21] + body), "offsets %s" % (offs,))
    ctx.trace()


def run_readonly(ctx):
    """Failed writes to a record leave all records alone."""
    for kind in KINDS:
        st = project(kind, 3)
        proj = real.parse_state(ctx, st)
        tree = spec.build(st)
        for path, node in records(tree, kind):
            obj = real.get(proj, tree, path)
            bad = []
            if node.cls == "Note":
                bad = [("key", v) for v in (-1, 132, 1000, "H5", "", "C", "5", "c5", "Db4", "C11", "B11")]
            elif node.cls == "AutomationPoint":
                bad = [("position", 3.5)]
            for a, v in bad:
                got = real.outcome(lambda: setattr(obj, a, v))
                ctx.step()
                if got is None:
                    ctx.fail("%s.%s = %r is accepted" % (real.show(path), a, v))
                real.check_saved(ctx, proj, st, "%s.%s = %r" % (real.show(path), a, v))
                ctx.state((path, a, v))
        ctx.step(real.compare(ctx, tree, proj))
        ctx.trace()
