"""C11: channel events belong to exactly their channel."""
import itertools

from mc import engine, flpfmt, real, spec, templates
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["every channel stores its type and display group, every group number has a display group and every layer child exists",
               "a mixer insert stores its flags before its slots"]
TYPES = (0, 2, 3, 4, 5, 1)
# what a channel's plugin events look like
PLUGS = ("none", "empty", "empty+path", "native", "native+path", "path", "vst", "blob")
BETWEEN = ("", "pattern", "mixer", "arrangement", "project")


def BOUNDS(tier):
    return {"channel sequences": "all sequences of 1 and 2 channels over 6 types x 8 plugin / sample forms, with 5 kinds of events in every gap (%s); all sequences of %d channels over 8 forms" %
                                 ("only the inner gaps of two channels varied" if tier == "quick" else "all gaps", 3 if tier == "quick" else 4),
            "event position": "each of %d channel and plugin event IDs at each end of each of 3 channels" % len(spec.CHANNEL_IDS | spec.PLUGIN_IDS),
            "layers": "a layer at every position of 4 channels with every ordered choice of up to 4 of the 4 IIDs, 3 numberings",
            "groups": "1..4 display groups, all assignments to 3 channels, groups stored before or after"}


def cases(tier):
    n = len(TYPES) * len(PLUGS)
    yield ("none",)
    for a in range(n):
        yield ("one", a)
        for b in range(n):
            yield ("two", a, b)
    for a in range(8):
        for b in range(8):
            yield ("more", a, b, 3 if tier == "quick" else 4)
    for i in sorted(spec.CHANNEL_IDS | spec.PLUGIN_IDS):
        yield ("event", i)
    for num in range(3):
        for pos in range(4):
            for k in range(5):
                yield ("layer", num, pos, k)
    for g in range(1, 5):
        yield ("group", g)
    for n in (10, 64, 128, 129, 256, 257, 400):
        yield ("many", n)


def run(case, ctx):
    ctx.count(case[0])
    globals()["run_" + case[0]](ctx, *case[1:])


def combo(n):
    return TYPES[n // len(PLUGS)], PLUGS[n % len(PLUGS)]


def chan(g, iid, typ, plug, group=0):
    g.channel(iid, typ, group)
    if plug.startswith("empty"):
        g.t(201, "")
    elif plug.startswith("native"):
        g.t(201, "BooBass").wrapper().raw(213, g.native("BooBass"))
    elif plug == "vst":
        g.t(201, spec.VST).raw(213, g.vst((1, 2, 54)))
    elif plug == "blob":
        g.t(201, "Something else").raw(213, g.filler(5)).wrapper()
    if plug.endswith("path"):
        g.t(196, "a.wav")
    g.s(203, 155, 128, 0, 22)
    if typ == 5:
        g.raw(234, g.automation(1))
    elif typ != 3:
        g.st(215, 219)


def between(g, kind, n):
    if kind == "pattern":
        g.raw(65, u16(1 + n)).s(193, 150).raw(224, g.notes(1)).s(164)
    elif kind == "mixer":
        g.s(95, 204).st(236).t(201, "Fruity Balance").wrapper().s(203, 155, 128).raw(213, g.native("Fruity Balance")).raw(98, u16(0))
        g.t(201, "").raw(98, u16(1)).raw(235, b"\0").s(154, 147)
    elif kind == "arrangement":
        g.raw(99, u16(n)).t(241, "arr %d" % n).track(True).marker()
    elif kind == "project":
        g.s(194, 9, 10, 12, 17, 18).raw(60, u8(n))


def make(seq, gaps, j=0):
    g = Gen(j, "20.8.4").head(False).groups(2)
    between(g, gaps[0] if gaps[0] != "mixer" else "", 0)
    for k, (typ, plug) in enumerate(seq):
        chan(g, 10 * k + 3, typ, plug, k % 2)
        between(g, gaps[k + 1], k + 1)
    if "arrangement" in gaps:
        g.raw(100, u16(0))
    return g.state()


def check(ctx, st, label):
    real.check_project(ctx, st, True, label)


def gap_choices(n, full):
    if full:
        yield from itertools.product(BETWEEN, repeat=n)
    else:
        yield ("",) * n
        for k in range(1, n - 1):
            for b in BETWEEN[1:]:
                yield tuple(b if i == k else "" for i in range(n))


def run_none(ctx):
    for b in BETWEEN:
        g = Gen(0, "20.8.4").head(False)
        between(g, b, 1)
        if b == "arrangement":
            g.raw(100, u16(0))
        check(ctx, g.state(), "no channels, " + b)
        g = Gen(0, "20.8.4").head(False).groups(2)
        g.s(201, 203, 155, 128)
        check(ctx, g.state(), "plugin events before any channel")


def run_one(ctx, a):
    for gaps in gap_choices(2, True):
        check(ctx, make((combo(a),), gaps, a), "%s in %s" % (combo(a), gaps))


def run_two(ctx, a, b):
    for gaps in gap_choices(3, ctx.lvl > 1):
        check(ctx, make((combo(a), combo(b)), gaps, a + b), "%s, %s in %s" % (combo(a), combo(b), gaps))


FORMS = ((0, "empty"), (0, "none"), (2, "native"), (2, "empty+path"), (4, "native+path"), (4, "path"), (3, "none"), (5, "empty"))


def run_more(ctx, a, b, n):
    for rest in itertools.product(range(8), repeat=n - 2):
        seq = tuple(FORMS[x] for x in (a, b) + rest)
        gaps = [""] * (n + 1)
        gaps[1 + (a + b) % n] = BETWEEN[1 + sum(rest) % 4]
        check(ctx, make(seq, gaps, a), "%s in %s" % (seq, gaps))


def run_event(ctx, i):
    """One event of every ID at the start and end of every channel's block, plain and next to foreign events."""
    if i in (64, 21, 145):
        return
    for at in range(3):
        for end in (0, 1):
            for gap in BETWEEN:
                g = Gen(at, "20.8.4").head(False).groups(1)
                for k in range(3):
                    g.channel(k, (0, 2, 4)[k], 0)
                    if k == at and not end:
                        put(g, i)
                    g.s(0, 203).raw(201, T(("", "Custom", "BooBass")[k]))
                    if k == at and end:
                        put(g, i)
                    if not (gap == "mixer" and k < 2):
                        between(g, gap, k)
                if gap == "arrangement":
                    g.raw(100, u16(0))
                check(ctx, g.state(), "event %d at the %s of channel %d, %s" % (i, "end" if end else "start", at, gap))


def put(g, i):
    if i == 213:
        g.raw(213, g.filler(40))
    elif i == 234:
        g.raw(234, g.automation(2))
    elif i == 94:
        g.raw(94, u16(1))
    elif i == 201:
        g.t(201, "Some name")
    elif i in spec.FULL:
        g.st(i)
    else:
        g.s(i)


IIDS = ((0, 1, 2, 3), (7, 3, 90, 1), (65535, 256, 0, 255))


def run_layer(ctx, num, pos, k):
    iids = IIDS[num]
    for kids in itertools.permutations(iids, k):
        g = Gen(pos, "20.8.4").head(False).groups(1)
        for n, iid in enumerate(iids):
            if n == pos:
                g.layer(iid, kids)
            else:
                chan(g, iid, (0, 2, 5, 4)[n], "native" if n % 2 else "empty")
        check(ctx, g.state(), "layer %d of %s with children %s" % (pos, iids, kids))
    if k == 4:      # a layer inside a layer, and the same child twice
        g = Gen(pos, "20.8.4").head(False).groups(1)
        for n, iid in enumerate(iids):
            if n in (pos, (pos + 1) % 4):
                g.layer(iid, (iids[(n + 1) % 4], iids[(n + 2) % 4], iids[(n + 1) % 4]))
            else:
                chan(g, iid, 0, "none")
        check(ctx, g.state(), "nested layers")


def run_group(ctx, n):
    for asg in itertools.product(range(n), repeat=3):
        for late in (0, 1, 2):
            g = Gen(n, "20.8.4").head(False)
            if not late:
                groups(g, n)
            for k in range(3):
                chan(g, k, (0, 2, 3)[k], "empty" if k else "none", asg[k])
                if late == 1 and k == 1:
                    groups(g, n)
            if late == 2:
                groups(g, n)
            st = g.state()
            check(ctx, st, "groups %s of %d" % (asg, n))
            proj = real.parse_state(ctx, st)
            got = [c.group.name for c in proj.channels]
            ctx.eq(got, ["Group %d" % a for a in asg], "group names")


def run_many(ctx, n):
    """n groups and n channels, channel k in group n - 1 - k."""
    g = Gen(n, "20.8.4").head(False)
    groups(g, n)
    for k in range(n):
        chan(g, k * 163 % 65521, (0, 2, 3, 4, 5)[k % 5], "empty" if k % 2 else "none", n - 1 - k)
    check(ctx, g.state(), "%d groups and channels" % n)


def groups(g, n):
    for i in range(n):
        g.t(231, "Group %d" % i)
