"""C21: insert and slot events belong to exactly their insert and slot."""
import itertools
import struct

from mc import engine, flpfmt, real, spec, templates, writes
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["every insert stores its flags before its slots and ends with its output", "the cap on inserts is checked for current versions (127)"]
OPT = (95, 149, 204, 235, 154)      # events an insert may or may not store
SLOT_PARTS = (201, 212, 203, 155, 128, 213)
PLUGS = (None, "Fruity Balance", "Fruity Send", spec.VST, "Unknown", "named")


def BOUNDS(tier):
    return {"inserts": "all pairs of inserts over presence of each of 5 optional events (32 x 32), followed by a third",
            "slots": "all %d-tuples of slots over 6 contents in two inserts; every subset of the 6 slot events in every order of two slots" % (3 if tier == "quick" else 4),
            "order": "all orders of the optional events of an insert (120)",
            "surroundings": "0-3 channels with and without plugins before the inserts, patterns and arrangements before and after",
            "counts": "0..%d inserts, 0..12 slots" % (135 if tier == "quick" else 260),
            "writes": "every attribute of every insert and slot, one history per layout"}


def cases(tier):
    lvl = 1 if tier == "quick" else 2
    for m in range(32):
        yield ("optional", m, lvl)
    for k in range(120):
        yield ("order", k)
    for a in range(len(PLUGS)):
        for b in range(len(PLUGS)):
            yield ("slots", a, b, 3 if lvl == 1 else 4)
    for m in range(64):
        yield ("parts", m)
    for c in range(4 ** 3):
        yield ("before", c)
    for n in list(range(0, 16)) + list(range(100, 136)) + ([] if lvl == 1 else list(range(16, 100, 3)) + list(range(136, 260, 5))):
        yield ("count", n)
    for n in range(0, 13):
        yield ("slotcount", n)
    for k in range(16 if lvl == 1 else 128):
        yield ("sweep", k)


def run(case, ctx):
    ctx.count(case[0])
    globals()["run_" + case[0]](ctx, *case[1:])


def insert(g, mask=31, slots=(None, None), order=OPT):
    before = [i for i in order if i in (95, 149, 204)]
    for i in before:
        if mask >> OPT.index(i) & 1:
            g.s(i)
    g.st(236)
    for k, p in enumerate(slots):
        slot(g, k, p)
    for i in order:
        if i in before or not mask >> OPT.index(i) & 1:
            continue
        if i == 235:
            g.raw(235, bytes(g.pick((0, 1)) for _ in range(3)))
        else:
            g.s(i)
    g.s(147)


def slot(g, k, plug):
    if plug == "named":
        g.s(203, 128, 155)
    elif plug is not None:
        g.plug(plug, data(g, plug))
    g.raw(98, u16(k))


def data(g, plug):
    return g.vst((2, 54, 1)) if plug == spec.VST else g.native(plug) if plug in spec.NATIVE else g.filler(7)


def start(j=0, chans=1):
    g = Gen(j).head(False).groups(1)
    for i in range(chans):
        g.channel(i, 2).plug("BooBass", g.native("BooBass")).s(0)
    return g


def check(ctx, g, label, n=None, rw=False):
    st = g.state()
    proj = real.check_project(ctx, st, True, label)
    if n and n <= 127:
        ctx.eq(len(proj.mixer), n, "%s: number of inserts" % label)
    if rw and not ctx.fails:
        tree = spec.build(st)
        for k, (path, node, a, cell) in enumerate(list(spec.writable(tree, False))):
            if path[:1] == (("s", "mixer"),) and node.cls in ("Insert", "Slot"):
                vals = spec.resolve(tree, path).attrs[a].few()
                st, tree = writes.step(ctx, proj, st, tree, path, a, vals[k % len(vals)], save=k % 5 == 0)
                if ctx.fails:
                    return
        real.check_saved(ctx, proj, st, label)
        ctx.step(real.compare(ctx, tree, proj, (), list(proj.events), True))


def run_optional(ctx, a, lvl):
    for b in range(32):
        for t, flagged in ((0, True),) if lvl == 1 else ((0, True), (1, True)):
            g = start(a + b)
            g.s(29)
            insert(g, a, (None, "Fruity Send") if t else (None,))
            insert(g, b, ("Fruity Balance", None))
            insert(g, 31, ())
            g.raw(225, g.params(3, 2, 3, 5))
            check(ctx, g, "inserts with events %s, %s" % (a, b), 3, rw=(a + b) % 8 == 0)
            if ctx.fails:
                return


def run_order(ctx, k):
    order = list(itertools.permutations(OPT))[k]
    g = start(k)
    g.s(29)
    insert(g, 31, ("Fruity Balance", None), order)
    insert(g, 31, (None, "Fruity Send"), order[::-1])
    g.raw(225, g.params(2, 2, 3, 5))
    check(ctx, g, "order %s" % (order,), 2)


def run_slots(ctx, a, b, n):
    for rest in itertools.product(range(len(PLUGS)), repeat=n - 2):
        seq = [PLUGS[x] for x in (a, b) + rest]
        g = start(len(rest), 1)
        g.s(29)
        insert(g, 31, seq)
        insert(g, 31, seq[::-1])
        g.raw(225, g.params(2, n, 2, 3))
        check(ctx, g, "slots %s" % (seq,), 2, rw=sum(rest) % 3 == 0)
        if ctx.fails:
            return


def run_parts(ctx, m):
    """A slot holding any subset of its events, before and after a full one, in several orders."""
    mine = [i for k, i in enumerate(SLOT_PARTS) if m >> k & 1]
    for rot in range(max(1, len(mine))):
        seq = mine[rot:] + mine[:rot]
        if 213 in seq and 201 in seq and seq.index(213) < seq.index(201):
            seq.remove(213)
            seq.append(213)
        for at in range(3):
            g = start(m, rot % 2)
            g.raw(201, T("x"))      # not a known plugin, until a slot names one
            g.st(236) if rot % 2 else g.s(95).st(236)
            named = None
            for k in range(3):
                if k == at:
                    for i in seq:
                        if i == 201:
                            g.t(201, "Fruity Send")
                            named = "Fruity Send"
                        elif i == 213:
                            g.raw(213, data(g, named or "x"))
                        elif i == 212:
                            g.wrapper()
                        else:
                            g.s(i)
                else:
                    g.plug("Fruity Balance", g.native("Fruity Balance"))
                    named = "Fruity Balance"
                g.raw(98, u16(k))
            g.s(147)
            insert(g, 3, (None,))
            if rot % 2 == 0:
                # the stray name comes before the mixer: without channels it belongs to nothing
                pass
            check(ctx, g, "slot events %s at %d" % (seq, at))
            if ctx.fails:
                return


def run_before(ctx, code):
    """What precedes and follows the inserts is not theirs."""
    kinds = [code // 4 ** i % 4 for i in range(3)]
    for tail in range(3):
        g = Gen(code).head(False).groups(1)
        for i, k in enumerate(kinds):
            if k == 1:
                g.channel(i, 2).plug("BooBass", g.native("BooBass")).s(0)
            elif k == 2:
                g.channel(i, 2).s(0).plug(spec.VST, g.vst((2, 54)))
            elif k == 3:
                g.sampler(i)
            else:
                g.raw(65, u16(i + 1)).raw(224, g.notes(1)).s(193)
        if tail == 1:
            g.raw(99, u16(0)).s(241).track().raw(100, u16(0))
        if tail != 2:
            g.s(29)
        insert(g, 31, ("Fruity Balance", None))
        insert(g, 0, (None, "Fruity Send", "Unknown"))
        if tail == 2:
            g.raw(225, g.params(2, 3, 3, 7))
            g.s(133)
        check(ctx, g, "channels %s, tail %d" % (kinds, tail), 2)
        if ctx.fails:
            return


def run_count(ctx, n):
    g = start(n)
    g.s(29)
    for i in range(n):
        g.s(204).st(236)
        if i % 10 == 3:
            slot(g, 0, "Fruity Balance")
        g.raw(98, u16(0)).s(147)
    g.raw(225, g.params(min(n, 127), 1, 1, 11))
    check(ctx, g, "%d inserts" % n, n)


def run_slotcount(ctx, n):
    for j in range(4):
        g = start(j)
        insert(g, 31, [PLUGS[(k + j) % len(PLUGS)] for k in range(n)])
        insert(g, 31, [PLUGS[(k + j + 1) % len(PLUGS)] for k in range(12 - n)])
        g.raw(225, g.params(2, max(1, n), 2, 13))
        check(ctx, g, "%d slots" % n, 2, rw=True)
        proj = real.parse_state(ctx, g.state())
        ctx.eq([len(i) for i in proj.mixer], [n, 12 - n], "numbers of slots")


def run_sweep(ctx, j):
    for k in range(8):
        g = start(j * 8 + k, k % 3)
        g.s(29)
        for i in range(3):
            insert(g, (j * 7 + k * 5 + i * 11) % 32, [PLUGS[(j + k + i + x) % len(PLUGS)] for x in range((j + i) % 4)])
        g.raw(225, g.params(3, 3, 3, 7 if k % 2 else 1))
        check(ctx, g, "sweep %d" % (j * 8 + k), 3)
