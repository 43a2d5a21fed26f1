"""C12: lookup, iteration, length and slicing agree."""
import itertools

from mc import engine, flpfmt, real, spec, templates
from mc.codecs import Raises
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["every insert stores its flags, at most 127 inserts, the current-arrangement event follows the arrangements",
               "what slicing or len() of a collection without any items does is only constrained for layers, inserts and tracks (elsewhere NoModelsFound is documented)"]
NAMES = (None, "", "a", "3", "\u00e9")
IIDS = (0, 3, 1, 300)


def BOUNDS(tier):
    n = 3 if tier == "quick" else 4
    return {"items": "0..%d items in each of 8 kinds of collections, all assignments of 5 names (missing, empty, plain, digits, non-ASCII)" % n,
            "lookups": "every index from -4 to 6 and 65535, every IID, every name in use, 3 names not in use",
            "slices": "all start, stop in -(n+2)..n+2 or open, steps open, +-1, +-2, +-3 for n <= 4; step 0",
            "renaming": "up to %d items, all histories of two renames (any item, 4 names) with every lookup before, between and after, through a held and a fresh collection" % n,
            "nested iteration": "all interleavings of two iterators over one collection of up to %d items, plus every lookup and len between any two steps; nested iteration of every collection of every section" % n,
            "numbers": "all sequences of 3 channel IIDs out of 4 (duplicates included), every current pattern / arrangement number 0..5 or absent",
            "large": "100 channels, 127 inserts, 10 slots, 300 patterns, 60 arrangements, 200 items: every index and name"}


def cases(tier):
    top = 3 if tier == "quick" else 4
    for kind in ("rack", "pattern", "arrangement", "insert", "slot"):
        for n in range(top + 1):
            for first in range(len(NAMES) if n else 1):
                yield ("names", kind, n, first)
    for kind in ("rack", "pattern", "arrangement", "insert", "slot", "layer", "point", "item"):
        for n in range(6):
            yield ("slices", kind, n)
        yield ("large", kind)
    for kind in ("rack", "pattern", "arrangement", "insert", "slot"):
        for n in range(1, top + 1):
            for first in range(n):
                yield ("rename", kind, n, first)
    for a in range(len(IIDS)):
        yield ("iids", a)
    for kind in ("rack", "pattern", "arrangement", "insert", "slot", "layer", "point", "item"):
        for n in range(1, top + 1):
            yield ("interleave", kind, n)
    for name in templates.SECTIONS:
        for j in (0, -1):
            yield ("nested", name, j)
    yield ("current",)
    for k in range(1, 16):
        yield ("wide", k)
    yield ("filters", 3 if tier == "quick" else 4)
    for name in templates.SECTIONS:
        for j in (0, 1, -1, -2):
            yield ("section", name, j)
    for j in range(4 if tier == "quick" else 40):
        yield ("rich", j)
        yield ("oldrich", j)


def key(o):
    if hasattr(o, "events"):
        return (type(o).__name__,) + tuple(id(e) for e in o.events)
    return (type(o).__name__, o.position, getattr(o, "value", None))


def make(kind, names, iids=None):
    n = len(names)
    g = Gen(1, "20.8.4").head(False).groups(1)
    get = None
    if kind == "rack":
        for k, nm in enumerate(names):
            g.channel(iids[k] if iids else 5 * k + 1, (0, 2, 3)[k % 3], 0).s(0)
            if nm is not None and k % 2:
                g.t(201, "zz")
            if nm is not None:
                g.t(203, nm)
            elif k % 2:
                g.t(201, "a")
        get = lambda p: p.channels
    elif kind == "pattern":
        for k, nm in enumerate(names):
            g.raw(65, u16(k + 1)).s(150)
            if nm is not None:
                g.t(193, nm)
        get = lambda p: p.patterns
    elif kind == "arrangement":
        for k, nm in enumerate(names):
            g.raw(99, u16(k))
            if nm is not None:
                g.t(241, nm)
        g.raw(100, u16(0))
        get = lambda p: p.arrangements
    elif kind == "insert":
        for k, nm in enumerate(names):
            if nm is not None:
                g.t(204, nm)
            g.st(236).s(147)
        get = lambda p: p.mixer
    elif kind == "slot":
        g.st(236)
        for k, nm in enumerate(names):
            if nm is not None:
                g.t(203, nm)
            g.raw(98, u16(k))
        g.s(147)
        get = lambda p: next(iter(p.mixer))
    elif kind == "layer":
        g.layer(50, [k for k in range(n)][::-1])
        for k in range(n):
            g.channel(k, 0, 0)
        get = lambda p: next(iter(p.channels))
    elif kind == "point":
        g.channel(1, 5, 0).raw(234, b"".join((bytes(17), u32(n))) + b"".join(point(k) for k in range(n)))
        get = lambda p: next(iter(p.channels))
    elif kind == "item":
        g.raw(65, u16(1)).s(193)
        g.raw(99, u16(0)).raw(233, b"".join(u32(k) + g.plitem(499, 20481)[4:] for k in range(n))).track(False).track(False)
        g.raw(100, u16(0))
        get = lambda p: next(iter(next(iter(p.arrangements)).tracks))
    return g.state(), get


def point(k):
    import struct
    return struct.pack("<ddf", 1.0, k, 0.5) + bytes(4)


def outcome(fn):
    try:
        return key(fn())
    except engine.Hang:
        raise
    except Exception as e:
        return Raises(*[c.__name__ for c in type(e).__mro__])


MISSING = {"rack": ("ChannelNotFound", "KeyError", "ModelNotFound"), "layer": ("ChannelNotFound", "KeyError", "ModelNotFound"),
           "item": ("IndexError",)}


def numbers(kind, items):
    """index -> item, as documented for the kind of collection"""
    out = {}
    for k, o in enumerate(items):
        n = {"rack": lambda: o.iid, "layer": lambda: o.iid, "insert": lambda: k - 1}.get(kind, lambda: k)()
        out.setdefault(n, key(o))
        if kind == "item":
            out[k - len(items)] = key(o)
    return out


def names_of(kind, items):
    out = {}
    if kind in ("layer", "point", "item"):
        return None
    for o in items:
        nm = o.display_name if kind == "rack" else o.name
        if nm is not None:
            out.setdefault(nm, key(o))
    return out


def lookups(ctx, kind, coll, what, extra=()):
    items = [x for x in coll]
    keys = [key(o) for o in items]
    ctx.eq([key(o) for o in coll], keys, what + ": iterating again")
    n = len(items)
    if kind != "point":
        got = real.outcome(lambda: len(coll))
        ctx.step()
        if n or kind in ("layer", "item", "slot"):
            if got != n:
                ctx.fail("%s: len is %s, iteration yields %d" % (what, got, n))
        elif not real.same(got, Raises("NoModelsFound")):
            ctx.fail("%s: len of an empty collection is %s" % (what, got))
    miss = MISSING.get(kind, ("ModelNotFound", "IndexError"))

    def look(i, want):
        got = outcome(lambda: coll[i])
        ctx.step()
        if want is not None:
            if got != want:
                ctx.fail("%s[%r] gives %s, iteration says item %d" % (what, i, describe(got, keys), keys.index(want)))
        elif not isinstance(got, Raises) or any(m not in got for m in miss):
            ctx.fail("%s[%r] gives %s, expected %s" % (what, i, describe(got, keys), miss[0]))

    if n or kind != "arrangement":
        nums = numbers(kind, items)
        for i in list(range(-4, 7)) + [65535, n, n - 1] + list(nums) + list(extra):
            if kind == "layer" and i not in nums and 0 <= i < n:
                continue
            look(i, nums.get(i))
        nm = names_of(kind, items)
        if nm is not None:
            for s in list(nm) + [x for x in NAMES if x is not None] + ["nope", "A", " a", "0", "1"]:
                look(s, nm.get(s))
    return items, keys


def describe(got, keys):
    return got[1] if isinstance(got, Raises) else "item %d" % keys.index(got) if got in keys else "something else"


def slices(ctx, kind, coll, keys, what):
    n = len(keys)
    if not n and kind not in ("layer", "item", "slot", "point"):
        return
    bounds = [None] + list(range(-n - 2, n + 3)) + [1000, -1000]
    for a in bounds:
        for b in bounds:
            for s in (None, 1, 2, 3, -1, -2, -3):
                ctx.step()
                sl = slice(a, b, s)
                try:
                    got = [key(o) for o in coll[sl]]
                except engine.Hang:
                    raise
                except Exception as e:
                    got = type(e).__name__
                if got != keys[sl]:
                    ctx.fail("%s[%s:%s:%s] gives %s, expected items %s" % (
                        what, a, b, s, got if isinstance(got, str) else [keys.index(k) if k in keys else "?" for k in got], list(range(n))[sl]))
                    return
    got = real.outcome(lambda: coll[::0])
    if not real.same(got, Raises("ValueError")):
        ctx.fail("%s[::0] gives %s" % (what, got))


def run(case, ctx):
    ctx.count(case[0])
    globals()["run_" + case[0]](ctx, *case[1:])


def one(ctx, kind, names, iids=None, cut=True):
    st, get = make(kind, names, iids)
    what = "%s %s" % (kind, list(names))
    ctx.state(flpfmt.encode(st))
    ctx.trace()
    proj = real.parse_state(ctx, st)
    n = len(names)
    if not n and kind == "arrangement":
        got = real.outcome(lambda: [x for x in proj.arrangements])
        if not real.same(got, Raises("NoModelsFound")):
            ctx.fail("no arrangements: iteration gives %s" % (got,))
        got = real.outcome(lambda: len(proj.arrangements))
        if not real.same(got, Raises("NoModelsFound")):
            ctx.fail("no arrangements: len gives %s" % (got,))
        return
    coll = get(proj)
    items, keys = lookups(ctx, kind, coll, what)
    ctx.eq(len(items), n, what + ": number of items")
    if cut:
        slices(ctx, kind, coll, keys, what)
    if kind in ("rack", "pattern", "arrangement", "insert", "slot"):      # against the model
        tree = spec.build(st)
        ctx.step(real.compare(ctx, tree, proj, (), list(proj.events), True))
    return items


def run_names(ctx, kind, n, first):
    for rest in itertools.product(NAMES, repeat=max(0, n - 1)):
        one(ctx, kind, ((NAMES[first],) + rest) if n else (), cut=n < 3)
        if len(ctx.fails) > 5:
            return


def run_slices(ctx, kind, n):
    one(ctx, kind, ["n%d" % k for k in range(n)])


def run_rename(ctx, kind, n, first):
    """Lookups made before a rename must not decide those made after it."""
    start = ["n%d" % k for k in range(n)]
    st, get = make(kind, start)
    for new1, second, new2 in itertools.product(("n0", "new", "N0", "n%d" % (n - 1)), range(n), ("n0", "fresh", "new")):
        proj = real.parse_state(ctx, st)
        held = get(proj)
        now = list(start)
        ctx.state((kind, n, first, new1, second, new2))
        ctx.trace()
        for k, (i, nm) in enumerate(((None, None), (first, new1), (second, new2))):
            what = "%s %s after %d renames" % (kind, now, k)
            if i is not None:
                items[i].name = now[i] = nm
                ctx.step()
            for route, coll in (("held", held), ("fresh", get(proj))):
                items = [x for x in coll]
                ctx.eq([o.display_name if kind == "rack" else o.name for o in items], now, "%s (%s): names" % (what, route))
                keys = [key(o) for o in items]
                for s in sorted(set(now) | {"n0", "n1", "n2", "new", "N0", "fresh", "nope"}):
                    got = outcome(lambda: coll[s])
                    ctx.step()
                    want = keys[now.index(s)] if s in now else None
                    if want is None and (not isinstance(got, Raises) or any(m not in got for m in MISSING.get(kind, ("ModelNotFound", "IndexError")))) \
                            or want is not None and got != want:
                        ctx.fail("%s, renamed %s: (%s)[%r] gives %s" % (what, now, route, s, describe(got, keys)))
        if len(ctx.fails) > 5:
            return


LARGE = {"rack": 100, "pattern": 300, "arrangement": 60, "insert": 127, "slot": 10, "layer": 60, "point": 80, "item": 200}


def run_large(ctx, kind):
    n = LARGE[kind]
    names = ["n%d" % k for k in range(n)]
    st, get = make(kind, names, [(k * 37) % 65536 for k in range(n)] if kind == "rack" else None)
    ctx.state(flpfmt.encode(st))
    ctx.trace()
    coll = get(real.parse_state(ctx, st))
    items, keys = lookups(ctx, kind, coll, "large " + kind, range(n + 3))
    ctx.eq(len(keys), n, "large %s: number of items" % kind)
    ctx.eq(len(set(keys)), n, "large %s: distinct items" % kind)
    for sl in (slice(None), slice(1, -1), slice(None, None, 7), slice(None, None, -1), slice(n - 2, n + 5)):
        ctx.eq([key(o) for o in coll[sl]], keys[sl], "large %s %s" % (kind, sl))


def run_interleave(ctx, kind, n):
    """Two iterators over one collection object, advanced in every order, with lookups in between."""
    st, get = make(kind, ["n%d" % k for k in range(n)])
    proj = real.parse_state(ctx, st)
    coll = get(proj)
    keys = [key(o) for o in coll]
    ctx.eq(len(keys), n, "%s: number of items" % kind)
    between = [lambda: None, lambda: len(coll), lambda: coll[0], lambda: coll["n0"], lambda: coll["nope"], lambda: coll[9999],
               lambda: coll[0:1], lambda: [x for x in coll], lambda: next(iter(coll)), lambda: [k for k in get(proj)]]
    for order in itertools.combinations(range(2 * (n + 1)), n + 1):
        for b, extra in enumerate(between):
            its, got = [iter(coll), iter(coll)], ([], [])
            for k in range(2 * (n + 1)):
                w = int(k in order)
                got[w].append(outcome_next(its[w]))
                real.outcome_raw(extra)
                ctx.step()
            ctx.state((kind, n, order, b))
            ctx.trace()
            for w in (0, 1):
                if got[w] != keys + ["end"]:
                    return ctx.fail("%s of %d: iterator %d of two advanced as %s (lookup %d in between) gives %s" % (
                        kind, n, w, order, b, [keys.index(x) if x in keys else x for x in got[w]]))


def outcome_next(it):
    try:
        return key(next(it))
    except StopIteration:
        return "end"
    except engine.Hang:
        raise
    except Exception as e:
        return type(e).__name__


def run_nested(ctx, name, j):
    """Iterating any collection inside an iteration of the same collection."""
    st = templates.SECTIONS[name](j)
    tree = spec.build(st)
    proj = real.parse_state(ctx, st)
    ctx.state(flpfmt.encode(st))
    for path, node in tree.walk():
        obj = real.get(proj, tree, path)
        colls = [(real.show(path), lambda: obj)] if hasattr(type(obj), "__iter__") and not isinstance(obj, (str, bytes)) else []
        for a in dir(type(obj)):
            if a.startswith("_") or not isinstance(getattr(type(obj), a, None), property):
                continue
            v = real.outcome_raw(lambda: getattr(obj, a))
            if hasattr(type(v), "__next__") or isinstance(v, (list, tuple)) and v and hasattr(v[0], "events"):
                colls.append(("%s.%s" % (real.show(path), a), lambda a=a: getattr(obj, a)))
        for what, coll in colls:
            try:
                want = [ident(o) for o in coll()]
            except engine.Hang:
                raise
            except Exception:
                continue
            outer = []
            for o in coll():
                outer.append(ident(o))
                inner = [ident(x) for x in coll()]
                ctx.step()
                if inner != want:
                    return ctx.fail("%s: iteration inside an iteration yields %d items, expected %d" % (what, len(inner), len(want)))
            ctx.trace()
            if outer != want:
                return ctx.fail("%s: iteration with iterations inside yields %d items, expected %d" % (what, len(outer), len(want)))


def ident(o):
    try:
        return key(o)
    except engine.Hang:
        raise
    except Exception:
        return real.codecs.norm(o) if isinstance(o, (int, str, bytes, float)) else type(o).__name__


def run_iids(ctx, a):
    for rest in itertools.product(IIDS, repeat=2):
        one(ctx, "rack", ("x", None, "y"), (IIDS[a],) + rest, cut=False)


def run_current(ctx):
    for n in range(0, 4):
        for cur in [None] + list(range(6)) + [65535]:
            for nums in itertools.permutations((1, 2, 4), n):
                g = Gen(0, "20.8.4").head(False).groups(1)
                if cur is not None:
                    g.raw(67, u16(cur))
                for i in nums:
                    g.raw(65, u16(i)).t(193, "p%d" % i)
                st = g.state()
                proj = real.check_project(ctx, st, True, "current pattern %s of %s" % (cur, nums))
                got = proj.patterns.current
                ctx.eq(None if got is None else got.name, "p%d" % cur if cur in nums else None, "current pattern %s of %s" % (cur, nums))
            if not n:
                continue
            g = Gen(0, "20.8.4").head(False).groups(1)
            for i in range(n):
                g.raw(99, u16(i)).t(241, "a%d" % i).track()
            if cur is not None:
                g.raw(100, u16(cur))
            st = g.state()
            proj = real.check_project(ctx, st, True, "current arrangement %s of %d" % (cur, n))
            got = real.outcome(lambda: getattr(proj.arrangements.current, "name", None))
            want = None if cur is None else "a%d" % cur if cur < n else Raises("ModelNotFound")
            if not real.same(got, want):
                ctx.fail("current arrangement %s of %d: %s, expected %s" % (cur, n, got, want))


def run_wide(ctx, k):
    """Channels and patterns whose numbers differ in the k-th bit only; the current item likewise."""
    a, b = 1, 1 + (1 << k)
    for x, y in ((a, b), (b, a)):
        for cur in (a, b, 0, 1 << k):
            g = Gen(0, "20.8.4").head(False).groups(1)
            g.raw(67, u16(cur))
            for i in (x, y):
                g.raw(65, u16(i)).t(193, "p%d" % i)
            g.channel(x, 0).t(203, "c%d" % x).channel(y, 0).t(203, "c%d" % y)
            g.raw(99, u16(0)).t(241, "a0").track().raw(99, u16(1)).t(241, "a1").track().raw(100, u16(cur))
            proj = real.check_project(ctx, g.state(), True, "numbers %d and %d, current %d" % (x, y, cur))
            got = proj.patterns.current
            ctx.eq(None if got is None else got.name, "p%d" % cur if cur in (x, y) else None, "current pattern %d of %d and %d" % (cur, x, y))
            for i in (a, b, 0, 1 << k):
                got = real.outcome(lambda: proj.channels[i].name)
                if not real.same(got, "c%d" % i if i in (x, y) else Raises("ChannelNotFound")):
                    ctx.fail("channel %d of %d and %d: %s" % (i, x, y, got))
            got = real.outcome(lambda: proj.arrangements.current.name)
            if not real.same(got, "a%d" % cur if cur < 2 else Raises("ModelNotFound")):
                ctx.fail("current arrangement %d of 2: %s" % (cur, got))


KIND = {"automations": "Automation", "instruments": "Instrument", "layers": "Layer", "samplers": "Sampler"}


def run_filters(ctx, top):
    forms = ((0, None), (2, None), (2, "path"), (3, None), (4, None), (5, None), (1, None))
    for n in range(top + 1):
        for seq in itertools.product(forms, repeat=n):
            g = Gen(n, "20.8.4").head(False).groups(1)
            for k, (t, p) in enumerate(seq):
                g.channel(k, t, 0)
                if p:
                    g.t(201, "").t(196, "x.wav")
            st = g.state()
            rack = real.parse_state(ctx, st).channels
            ctx.state(flpfmt.encode(st))
            ctx.trace()
            filters(ctx, rack, str(seq))


def filters(ctx, rack, what):
    every = [x for x in rack]
    for attr, cls in KIND.items():
        ctx.eq([key(o) for o in getattr(rack, attr)], [key(o) for o in every if type(o).__name__ == cls], "%s of %s" % (attr, what))


def everything(ctx, st, what):
    ctx.state(flpfmt.encode(st))
    ctx.trace()
    proj = real.parse_state(ctx, st)
    filters(ctx, proj.channels, what)
    small = lambda kind, coll, w: (lambda r: slices(ctx, kind, coll, r[1], w) if len(r[1]) < 5 else None)(lookups(ctx, kind, coll, w))
    small("rack", proj.channels, what + " rack")
    for c in proj.channels.layers:
        small("layer", c, what + " layer")
    for c in proj.channels.automations:
        small("point", c, what + " points")
    small("pattern", proj.patterns, what + " patterns")
    if any(i == 99 for i, _ in st.events):
        small("arrangement", proj.arrangements, what + " arrangements")
        for a in proj.arrangements:
            for t in a.tracks:
                small("item", t, what + " items")
    small("insert", proj.mixer, what + " mixer")
    for i in proj.mixer:
        small("slot", i, what + " slots")


def run_section(ctx, name, j):
    everything(ctx, templates.SECTIONS[name](j), "%s %d" % (name, j))


def run_rich(ctx, j):
    everything(ctx, templates.rich(j), "rich %d" % j)


def run_oldrich(ctx, j):
    everything(ctx, templates.old(j), "old %d" % j)
