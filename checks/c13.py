"""C13: playlist items sit on the right track with the right clip."""
import itertools
import struct

from mc import engine, flpfmt, real, spec, templates, writes
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["the channels and patterns a playlist refers to exist", "records of 32 bytes do not come in multiples of 15 (see the known finding)"]
NEW, OLD = ("12.9.1", "12.9.1.7", "12.9.2", "12.10.0", "13.0.0", "20.8.4.2576", "21.0.0"), ("12.9.0", "12.9.0.99", "12.8.9", "12.1.0", "11.9.9", "11.4.0", "9.0.0", "3.0.0")
CHANS = (0, 1, 300, 20480)
PATS = (1, 2, 45055)
ITEMS = CHANS + tuple(20480 + p for p in PATS)


def BOUNDS(tier):
    return {"track numbers": "every reversed track number 0..%d on a full set of tracks, 15 versions around 12.9.1, both record sizes" % (510 if tier == "quick" else 65535),
            "layouts": "all assignments of up to %d records to 3 tracks + one absent track, both sizes, 1-3 arrangements" % (5 if tier == "quick" else 7),
            "clips": "every item index 0..65535 next to 6 pattern bases (boundaries exhaustively), 4 channels, 3 patterns",
            "re-pointing": "all histories of up to %d re-pointings / moves over 4 items with the usual pattern base, up to %d with 5 other bases" % (3 if tier == "quick" else 4, 2 if tier == "quick" else 3)}


def cases(tier):
    lvl = 1 if tier == "quick" else 2
    for v in NEW + OLD:
        for size in (32, 60):
            yield ("tracks", v, size)
    for n in range(0, 6 if lvl == 1 else 8):
        for first in range(4 if n else 1):
            for second in range(4 if n > 1 else 1):
                yield ("layout", n, first, second)
    for size in (32, 60):
        for base in (20480, 20479, 256, 1, 40000, 65535):
            yield ("clip", base, size)
        for a in range(9):
            yield ("repoint", size, a, 3 if lvl == 1 else 4, 20480)
        for base in (0, 1000, 20479, 30000, 65000):
            for a in range(9):
                yield ("repoint", size, a, 2 if lvl == 1 else 3, base)
        for k in range(8):
            yield ("fields", size, k)
        yield ("arrangements", size)
    for v in ("20.8.4", "11.4.0"):
        yield ("ambiguous", v)
    yield ("numbers",)


def run(case, ctx):
    ctx.count(case[0])
    globals()["run_" + case[0]](ctx, *case[1:])


def begin(version="20.8.4", j=0):
    g = Gen(j, version).head(False).groups(1)
    for c in CHANS:
        g.channel(c, 0).s(203)
    for p in PATS:
        g.raw(65, u16(p)).s(193)
    return g


def finish(g, n=0):
    return g.raw(100, u16(n)).state()


def top_of(version):
    return 499 if tuple(int(x) for x in version.split(".")[:3]) >= (12, 9, 1) else 198


def run_tracks(ctx, version, size):
    top = top_of(version)
    g = begin(version)
    g.raw(99, u16(0))
    recs = [g.plitem(r, ITEMS[r % len(ITEMS)], size=size) for r in range(0, 511)]
    if len(recs) % 15 == 0 and size == 32:
        recs.append(recs[-1])
    g.raw(233, b"".join(recs))
    small = bytes(g.struct(238))
    for k in range(top + 1):
        g.raw(238, small)
    st = finish(g)
    real.check_project(ctx, st, True, "%s, %d" % (version, size))
    proj = real.parse_state(ctx, st)
    ctx.eq(proj.arrangements.max_tracks, top + 1, "max_tracks of " + version)
    want = [sum(1 for r in range(len(recs)) if min(r, 510) == top - t) for t in range(top + 1)]
    ctx.eq([len(t) for t in proj.arrangements[0].tracks], want, "items per track of " + version)


def run_numbers(ctx):
    """A single record with every track number, on a few tracks."""
    for version, size in (("20.8.4", 60), ("11.4.0", 32)):
        top = top_of(version)
        base = begin(version)
        rest = base.plitem(0, 20481, size=size)
        for r in range(0, 65536, 1 if ctx.lvl > 1 else 61):
            r2 = r if r < 60000 else 65535 - (r - 60000) // 8
            g = Gen(0, version)
            g.ev = list(base.ev)
            g.raw(99, u16(0)).raw(233, rest[:12] + u16(r2) + rest[14:])
            for _ in range(3):
                g.track(False)
            proj = real.parse_state(ctx, finish(g))
            ctx.state((version, r2))
            ctx.eq([len(t) for t in proj.arrangements[0].tracks], [int(top - r2 == t) for t in range(3)], "track number %d" % r2)
        for r2 in range(top - 4, top + 5):
            proj = real.parse_state(ctx, finish_one(base, version, rest, r2))
            ctx.eq([len(t) for t in proj.arrangements[0].tracks], [int(top - r2 == t) for t in range(3)], "track number %d" % r2)
        ctx.trace()


def finish_one(base, version, rest, r):
    g = Gen(0, version)
    g.ev = list(base.ev)
    g.raw(99, u16(0)).raw(233, rest[:12] + u16(r) + rest[14:])
    for _ in range(3):
        g.track(False)
    return finish(g)


def run_layout(ctx, n, first, second):
    rests = itertools.product(range(4), repeat=max(0, n - 2))
    for rest in rests:
        asg = ((first, second)[:n]) + rest
        for size in (32, 60):
            g = begin(j=n)
            g.raw(99, u16(0))
            g.raw(233, b"".join(g.plitem(499 - (t if t < 3 else 50), ITEMS[(k * 3 + t) % len(ITEMS)], size=size) for k, t in enumerate(asg)))
            for _ in range(3):
                g.track(False)
            check(ctx, finish(g), "records on tracks %s, %d bytes" % (asg, size))


def check(ctx, st, label):
    return real.check_project(ctx, st, True, label)


def run_clip(ctx, base, size):
    idxs = sorted({i for i in CHANS} | {base + p for p in PATS if base + p < 65536} | {0, 1})
    if base < 20480:
        idxs = [i for i in idxs if (i <= base and i in CHANS) or (i > base and i - base in PATS)]
    for seq in itertools.product(idxs, repeat=2):
        g = begin()
        g.raw(99, u16(0)).raw(233, b"".join(g.plitem(499, i, base, size) for i in seq)).track().track()
        check(ctx, finish(g), "items %s, base %d" % (seq, base))
    # every index around the boundary: the channels and patterns are made to fit
    for i in list(range(max(0, base - 3), min(65536, base + 4))) + [0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65534, 65535]:
        g = Gen(0, "20.8.4").head(False).groups(1)
        g.channel(7, 0).s(203)
        if i <= base:
            g.channel(i, 0).s(203)
        g.channel(65000, 0)
        g.raw(65, u16(12345)).s(193)
        if i > base:
            g.raw(65, u16(i - base)).s(193)
        g.raw(99, u16(0)).raw(233, g.plitem(499, i, base, size)).track()
        if i in (7, 65000) and i <= base:
            continue
        check(ctx, finish(g), "item index %d, base %d" % (i, base))


def run_arrangements(ctx, size):
    for lay in itertools.product(range(4), repeat=3):
        g = begin()
        for a, n in enumerate(lay):
            g.raw(99, u16(a)).t(241, "arr")
            if n:
                g.raw(233, b"".join(g.plitem(499 - (k + a) % 2, ITEMS[(a + k) % len(ITEMS)], size=size if (a + n) % 2 else 92 - size) for k in range(n)))
            for _ in range(2):
                g.track(False)
        check(ctx, finish(g, 1), "playlists of %s records, %d bytes" % (lay, size))


def run_fields(ctx, size, part):
    """Every stored form of every field of a record between two others."""
    for j in range(part, 200 if ctx.lvl == 1 else 800, 8):
        g = begin(j=j)
        g.raw(99, u16(0)).raw(233, b"".join(g.plitem(499 - j % 2, ITEMS[(j + k) % len(ITEMS)], size=size) for k in range(3))).track().track()
        st = finish(g)
        proj = check(ctx, st, "fields %d" % j)
        tree = spec.build(st)
        for path, node, attr, cell in list(spec.writable(tree, False)):
            if node.cls not in ("ChannelPLItem", "PatternPLItem"):
                continue
            vals = cell.vals(1)
            v = vals[j % len(vals)]
            st, tree = writes.step(ctx, proj, st, tree, path, attr, v)
            if ctx.fails:
                return



def run_repoint(ctx, size, first, depth, base):
    g = begin()
    third = 300 if base >= 300 else 0
    g.raw(99, u16(0)).raw(233, g.plitem(499, 0, base, size) + g.plitem(498, base + 1, base, size) + g.plitem(499, base + 2, base, size) + g.plitem(499, third, base, size))
    g.track().track()
    st0 = finish(g)
    k = next(n for n, (i, _) in enumerate(st0.events) if i == 233)
    # (record, attribute, number)
    ops = [(0, "channel", c) for c in (1, 300, 20480)] + [(1, "pattern", p) for p in (2, 45055)] + [(2, "pattern", p) for p in (1, 45055)] + [(3, "channel", 0), (3, "position", 77)]
    ops = [(r, a, n) for r, a, n in ops if a == "position" or (n <= base if a == "channel" else n + base < 65536)]
    if first >= len(ops):
        return
    where = {0: (0, 0), 1: (1, 0), 2: (0, 1), 3: (0, 2)}
    for n in range(0, depth):
        for rest in itertools.product(range(len(ops)), repeat=n):
            seq = (first,) + rest
            st = st0
            proj = real.parse_state(ctx, st)
            for o in seq:
                rec, attr, num = ops[o]
                t, i = where[rec]
                item = list(list(proj.arrangements[0].tracks)[t])[i]
                off = rec * size
                p = st.events[k][1]
                if attr == "position":
                    item.position = num
                    p = p[:off] + u32(num) + p[off + 4:]
                else:
                    if attr == "channel":
                        target = proj.channels[num]
                        item.channel = target
                        new = num
                    else:
                        target = next(x for x in proj.patterns if x.iid == num)
                        item.pattern = target
                        new = base + num
                    p = p[:off + 6] + u16(new) + p[off + 8:]
                    ctx.eq(getattr(item, attr).iid, num, "re-pointed item reads")
                st = st.with_event(k, p)
                ctx.step()
                ctx.state(flpfmt.encode(st))
                if not real.check_saved(ctx, proj, st, "re-pointing %s" % (seq,)):
                    return
            ctx.trace()
            tree = spec.build(st)
            ctx.step(real.compare(ctx, tree, proj, (), list(proj.events), True))
            again = real.parse_bytes(ctx, real.save_bytes(ctx, proj))
            ctx.step(real.compare(ctx, tree, again, (), list(again.events), True))
            if ctx.fails:
                ctx.fail("history %s" % (seq,))
                return


def run_ambiguous(ctx, version):
    """Record counts at which the total size fits both record sizes."""
    for n in (8, 16):       # 60 byte records
        g = begin(version)
        g.raw(99, u16(0)).raw(233, b"".join(g.plitem(top_of(version), 20481, size=60) for _ in range(n))).track()
        check(ctx, finish(g), "%d records of 60 bytes" % n)
    for n in (15, 30):
        g = begin(version)
        g.raw(99, u16(0)).raw(233, b"".join(u32(k) + g.plitem(top_of(version), 20481, size=32)[4:] for k in range(n))).track()
        proj = real.parse_state(ctx, finish(g))
        got = real.outcome(lambda: [i.position for i in next(iter(proj.arrangements[0].tracks))])
        ctx.step()
        if got != tuple(range(n)):
            ctx.fail("%d playlist records of 32 bytes (%d bytes) read as %s" % (n, 32 * n, "something else" if isinstance(got, tuple) and got[:1] != ("!",) else got))
