"""C22: pattern, arrangement, track and marker events have one owner."""
import itertools
import struct

from mc import engine, flpfmt, real, spec, templates, writes
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["all markers of one pattern or arrangement store the same set of fields", "a track's name follows its data",
               "no pattern event precedes the first pattern start, the current-arrangement event follows all arrangements"]
CONTENT = ("empty", "notes", "ctrl", "name", "color", "loop", "marker", "all")
NUMS = (1, 2, 7)
BIGNUMS = (1, 255, 256, 1023, 1024, 1025, 32767, 32768, 65535)


def BOUNDS(tier):
    return {"pattern blocks": "all sequences of up to 3 blocks over 3 patterns x 8 contents, pairs of 9 numbers up to 65535, up to 260 patterns, all sequences of 4 blocks over 3 patterns x 4 contents%s" % ("" if tier == "quick" else ", of 5 over 2 x 4"),
            "arrangements": "all pairs over name x playlist x 0-2 markers x 0-3 tracks named or not x 4 places of the markers; 0-%d (and 40, 130, 260) arrangements with and without the current one" % (6 if tier == "quick" else 12),
            "markers": "all subsets of the 4 fields in all orders, 0-3 (in one order 11 and 130) markers, before and after the arrangements began",
            "tracks": "all sequences of named / unnamed tracks up to %d, up to 500 tracks" % (6 if tier == "quick" else 9),
            "writes": "every attribute of every pattern, arrangement, track and marker, one history per layout"}


def cases(tier):
    lvl = 1 if tier == "quick" else 2
    for a in range(24):
        for b in range(24):
            yield ("blocks", 3, a, b)
    for a in range(12):
        for b in range(12):
            yield ("four", a, b)
    if lvl > 1:
        for a in range(8):
            for b in range(8):
                yield ("five", a, b)
    for a in range(len(ARRS)):
        for place in range(4):
            yield ("arrs", a, place)
    for n in range(0, 7 if lvl == 1 else 13):
        for cur in (None, 0, 1, 2, 5):
            yield ("many", n, cur)
    for n in (40, 130, 260) if lvl == 1 else (40, 130, 260, 520):
        yield ("many", n, n - 1)
        yield ("manypatterns", n)
    for m in range(1, 16):
        yield ("fields", m)
    for n in range(0, 7 if lvl == 1 else 10):
        yield ("tracks", n)
    for n in (198, 199, 200, 498, 499, 500, 501):
        yield ("trackcount", n)
    for k in range(24):
        yield ("split", k)
    for v in ("9.0.0", "11.4.9", "11.5.0", "12.9.0", "12.9.1", "20.8.4"):
        yield ("versions", v)
    for k in range(16 if lvl == 1 else 160):
        yield ("sweep", k)
    for a in range(len(BIGNUMS)):
        for b in range(len(BIGNUMS)):
            yield ("bignum", a, b)


def run(case, ctx):
    ctx.count(case[0])
    globals()["run_" + case[0]](ctx, *case[1:])


def block(g, num, content):
    g.raw(65, u16(num))
    if content in ("notes", "all"):
        g.raw(224, g.notes(1 + g.salt % 2))
    if content in ("ctrl", "all"):
        g.raw(223, g.controllers(1 + g.salt % 2))
    if content in ("name", "all"):
        g.s(193)
    if content in ("color", "all"):
        g.s(150)
    if content in ("loop", "all"):
        g.raw(160, u32(1)).raw(161, u32(0)).s(26, 164).raw(162, u32(2))
    if content in ("marker", "all"):
        g.marker()


def check(ctx, g, label, rw=False):
    st = g.state()
    proj = real.check_project(ctx, st, True, label)
    if rw and not ctx.fails:
        tree = spec.build(st)
        for k, (path, node, a, cell) in enumerate(list(spec.writable(tree, False))):
            if node.cls in ("Pattern", "Arrangement", "Track", "TimeMarker", "Patterns", "Arrangements"):
                vals = spec.resolve(tree, path).attrs[a].few()
                st, tree = writes.step(ctx, proj, st, tree, path, a, vals[k % len(vals)], save=k % 4 == 0)
                if ctx.fails:
                    return proj
        real.check_saved(ctx, proj, st, label)
        ctx.step(real.compare(ctx, tree, proj, (), list(proj.events), True))
    return proj


def patterns(ctx, seq, cur, j):
    g = Gen(j).head(False).groups(1)
    if cur is not None:
        g.raw(67, u16(cur))
    for k, (n, c) in enumerate(seq):
        if k == 1 and j % 2:
            g.channel(3, 0).s(203)          # other events in between
        block(g, n, c)
    st = g.state()
    proj = check(ctx, g, "pattern blocks %s" % (seq,), rw=j % 37 == 0)
    order = list(dict.fromkeys(n for n, _ in seq))
    ctx.eq([p.iid for p in proj.patterns], order, "pattern blocks %s: order" % (seq,))
    if seq:
        ctx.eq(len(proj.patterns), len(order), "pattern blocks %s: length" % (seq,))


def run_blocks(ctx, depth, a, b):
    al = [(n, c) for n in NUMS for c in CONTENT]
    if a == b == 0:
        patterns(ctx, (), None, 0)
        patterns(ctx, (), 1, 0)
    if b == 0:
        patterns(ctx, (al[a],), NUMS[a % 3], a)
    patterns(ctx, (al[a], al[b]), NUMS[(a + b) % 3], a + b)
    for c in range(24):
        patterns(ctx, (al[a], al[b], al[c]), NUMS[(a + c) % 3] if c % 2 else None, a + b + c)
        if ctx.fails:
            return


def run_four(ctx, a, b):
    al = [(n, c) for n in NUMS for c in ("notes", "name", "marker", "all")]
    for c, d in itertools.product(range(12), repeat=2):
        patterns(ctx, (al[a], al[b], al[c], al[d]), None, a + b + c + d)
        if ctx.fails:
            return


def run_bignum(ctx, a, b):
    """Pattern numbers that need their full 16-bit width, in every role."""
    n, m = BIGNUMS[a], BIGNUMS[b]
    for c in ("notes", "name", "marker", "all"):
        patterns(ctx, ((n, c), (m, "color"), (n, "loop"), (m, "marker")), n, a + b)
        if ctx.fails:
            return


def run_manypatterns(ctx, n):
    """n patterns, each in two blocks, the second blocks in reverse order."""
    al = ("notes", "name", "marker", "color")
    patterns(ctx, [(1 + k, al[k % 4]) for k in range(n)] + [(n - k, al[(k + 1) % 4]) for k in range(n)], n, n)


def run_five(ctx, a, b):
    al = [(n, c) for n in (1, 2) for c in ("notes", "name", "marker", "all")]
    for rest in itertools.product(range(8), repeat=3):
        patterns(ctx, [al[x] for x in (a, b) + rest], None, a + b + sum(rest))
        if ctx.fails:
            return


# (name, records, markers, tracks)
ARRS = [(n, p, m, t) for n in (0, 1) for p in (0, 2) for m in (0, 1, 2) for t in ("", "-", "n", "n-", "-n", "n-n")]


def arrangement(g, number, kind, place=0):
    name, recs, markers, tracks = kind
    g.raw(99, u16(number))
    if place == 3:
        for _ in range(markers):
            g.marker()
    if name:
        g.s(241)
    if recs:
        g.raw(233, g.plitem(499, 5) + g.plitem(498, 20481))
    if place == 0:
        for _ in range(markers):
            g.marker()
    for k, t in enumerate(tracks):
        if place == 1 and k < markers:
            g.marker()
        g.track(t == "n")
    if place == 1:
        for _ in range(max(0, markers - len(tracks))):
            g.marker()
    if place == 2:
        for _ in range(markers):
            g.marker()


def begin(j=0, version="20.8.4", markers=0):
    g = Gen(j, version).head(False).groups(1)
    g.channel(5, 0).s(203)
    g.raw(65, u16(1)).s(193)
    for _ in range(markers):
        g.marker()
    return g


def run_arrs(ctx, a, place):
    for b in range(len(ARRS)):
        if ctx.lvl == 1 and (a + b + place) % 2:
            continue
        g = begin(a + b, markers=(a + b) % 3)
        arrangement(g, 0, ARRS[a], place)
        arrangement(g, 1, ARRS[b], (place + b) % 4)
        if b % 3:
            g.raw(100, u16(b % 2))
            g.raw(36, u8(1))
        if b % 4 == 0:      # a pattern block after the arrangements
            g.raw(65, u16(1)).s(150)
        check(ctx, g, "arrangements %s, %s, place %d" % (ARRS[a], ARRS[b], place), rw=(a + b) % 24 == place)
        if ctx.fails:
            return


def run_many(ctx, n, cur):
    for j in range(6):
        g = begin(j, markers=j % 3)
        for i in range(n):
            arrangement(g, i, ARRS[(i * 7 + j * 5) % len(ARRS)], (i + j) % 4)
        if cur is not None:
            g.raw(100, u16(cur))
        proj = check(ctx, g, "%d arrangements, current %s" % (n, cur))
        if n:
            ctx.eq(len(proj.arrangements), n, "number of arrangements")


def run_fields(ctx, m):
    ids = [i for k, i in enumerate((33, 34, 148, 205)) if m >> k & 1]
    for order in itertools.permutations(ids):
        for n in (0, 1, 2, 3, 11, 130) if order == tuple(ids) else range(4):
            for where in range(3):
                if n > 3 and where == 0:
                    continue
                g = begin(n)
                k1, k2 = (n, 3 - n) if where == 0 else (n, 0) if where == 1 else (0, n)

                def put(count):
                    for _ in range(count):
                        for i in order:
                            if i == 148:
                                g.raw(148, u32(g.pick((0, 1, 96, (1 << 27) - 1)) + (1 << 27) * g.pick((0, 1))))
                            else:
                                g.s(i)
                put(k1)
                g.raw(65, u16(2))
                put(k2)
                g.raw(99, u16(0))
                put(k2)
                g.track(False)
                g.raw(99, u16(1)).track(True)
                put(k1)
                g.raw(100, u16(0))
                check(ctx, g, "markers of %s, %d" % (order, n), rw=n == 2 and where == 0)
                if ctx.fails:
                    return


def run_tracks(ctx, n):
    for named in itertools.product("n-", repeat=n):
        for place in (0, 1):
            g = begin(n)
            arrangement(g, 0, (1, 2 * place, 1, named), place)
            arrangement(g, 1, (0, 0, 0, named[::-1]), 0)
            g.raw(100, u16(1))
            check(ctx, g, "tracks %s" % (named,), rw=n == 4 and place == 0)
            if ctx.fails:
                return


def run_trackcount(ctx, n):
    g = begin(n)
    g.raw(99, u16(0)).raw(233, g.plitem(499, 5) + g.plitem(0, 20481) + g.plitem(500 - n if n <= 500 else 0, 20481))
    p = g.struct(238)
    for k in range(n):
        g.raw(238, u32(k + 1) + p[4:])
        if k % 100 == 7:
            g.t(239, "track %d" % k)
    g.raw(100, u16(0))
    check(ctx, g, "%d tracks" % n)


def run_split(ctx, k):
    """The usual layout: notes first, the rest of each pattern later, other sections in between, in every order."""
    secs = list(itertools.permutations(range(4)))[k]
    for j in range(4):
        g = Gen(j).head(False).groups(1)
        g.raw(65, u16(1)).raw(224, g.notes(2)).raw(65, u16(2)).raw(224, g.notes(1)).marker()
        for s in secs:
            if s == 0:
                g.sampler(5).channel(6, 2).plug("BooBass", g.native("BooBass"))
            elif s == 1:
                g.raw(65, u16(2)).s(193, 150).raw(65, u16(1)).s(193).raw(65, u16(3)).s(193)
            elif s == 2:
                arrangement(g, 0, (1, 2, 2, "n-"), j)
                arrangement(g, 1, (1, 2, 1, "-n"), j)
                g.raw(100, u16(1))
            else:
                g.s(29)
                g.insert_head().slot(0, "Fruity Balance", g.native("Fruity Balance")).insert_tail()
        check(ctx, g, "sections %s" % (secs,), rw=j == 0)


def run_versions(ctx, v):
    top = 499 if Gen(0, v).vt() >= (12, 9, 1) else 198
    for a in range(0, len(ARRS), 5):
        g = begin(a, v, 1)
        for n in range(2):
            g.raw(99, u16(n)).s(241).raw(233, g.plitem(top, 5, size=32) + g.plitem(top - 1, 20481, size=32))
            g.marker().track().track(False)
        g.raw(100, u16(0))
        check(ctx, g, "FL " + v, rw=a == 0)


def run_sweep(ctx, k):
    for j in range(k * 4, k * 4 + 4):
        check(ctx, wrap(templates.sec_pattern(j)), "patterns %d" % j)
        check(ctx, wrap(templates.sec_arrangement(j)), "arrangements %d" % j)


class wrap:
    def __init__(self, st):
        self.state = lambda: st
