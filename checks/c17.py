"""C17: all handles to the same data always agree.

For every object of the model tree all ways to reach it are enumerated (iteration, index, name, slice, filtered
iterator, current item, layer child, clip reference, held parent). Every attribute is written through every one of
them and read through all the others, those taken before the write and those taken after it.
"""
import itertools

from mc import engine, flpfmt, real, spec, templates
from mc.codecs import Raises, Text
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["two routes lead to the same data when the model (mc/spec.py) gives both the same events",
               "attributes that decide the route itself (numbers, names used as keys) are read through handles taken before and by position",
               "what a clip or layer obtained before a channel or pattern was renumbered refers to is not looked at; obtained again from the same parent it is"]
NAMES = ("project", "sampler", "instrument", "generators", "vst", "misc", "pattern", "arrangement", "mixer", "effects", "oldchannel", "alias")


def BOUNDS(tier):
    return {"routes": "every route of every object: iteration, index / number, name, two slices, filtered iterators, current, references from layers and clips, and from a held parent",
            "pairs": "every (writing route, reading route) pair, reading handles taken before the first write and after every write",
            "attributes": "every writable attribute of every object, %d projects" % (len(NAMES) * (1 if tier == "quick" else 4)),
            "clip references": "all histories of %d re-pointings of 2 clips through 4 handles each" % (3 if tier == "quick" else 4),
            "numbers": "all 48 permutations of the numbers of 4 channels and 2 patterns, each followed by %s others; everything read through parents held from before" % ("7" if tier == "quick" else "48"),
            "plugins": "every plugin of 3 channels and 4 slots replaced by every other through every route, read through all",
            "events": "every plain event written through project.events and read through all routes"}


def alias(j):
    """Every kind of object reached through several parents."""
    g = Gen(j).head(False).groups(2)
    g.raw(67, u16(2))
    g.raw(65, u16(1)).raw(224, g.notes(2)).t(193, "one").raw(65, u16(2)).raw(223, g.controllers(2)).t(193, "two").s(150)
    g.channel(0, 3, 1).t(203, "layer").s(128).raw(94, u16(1)).raw(94, u16(4)).raw(94, u16(7)).raw(94, u16(0))
    g.channel(1, 0, 0).t(201, "").t(203, "smp").s(128, 0, 32).st(219, 215)
    g.channel(4, 2, 1).plug("BooBass", g.native("BooBass")).s(0).st(219)
    g.autoclip(7, 2)
    g.raw(99, u16(0)).t(241, "arr").raw(233, g.plitem(499, 1) + g.plitem(498, 20481) + g.plitem(499, 20482) + g.plitem(499, 4) + g.plitem(498, 7))
    g.marker().track().track(False)
    g.raw(99, u16(1)).t(241, "arr2").raw(233, g.plitem(499, 20482) + g.plitem(499, 1)).track()
    g.raw(100, u16(1))
    g.raw(29, u8(1))
    g.insert_head().slot(0, "Fruity Balance", g.native("Fruity Balance")).slot(1).insert_tail()
    g.insert_head().slot(0).slot(1, "Fruity Send", g.native("Fruity Send")).insert_tail()
    g.raw(225, g.params(2, 2, 2, 3))
    return g.state()


def make(name, j):
    return alias(j) if name == "alias" else templates.SECTIONS[name](j)


def cases(tier):
    for name in NAMES:
        for j in range(-1 if name != "alias" else 0, 1 if tier == "quick" else 4):
            tree = spec.build(make(name, j))
            for k, (path, _) in enumerate(targets(tree)):
                yield (name, j, k)


    for k in range(len(PLUGGED)):
        yield ("replant", 0, k)
    for k in range(48):
        yield ("renumber", 0, k)
    for a in range(8):
        yield ("repoint", 3 if tier == "quick" else 4, a)


def targets(tree):
    return [(p, n) for p, n in tree.walk() if any(c.writable() and c.present() for c in n.attrs.values())]


def run(case, ctx):
    name, j, k = case
    ctx.count(name)
    if name == "repoint":
        return repoint(ctx, j, k)
    if name == "replant":
        return replant(ctx, k)
    if name == "renumber":
        return renumber(ctx, k)
    st = make(name, j)
    tree = spec.build(st)
    path, node = targets(tree)[k]
    proj = real.parse_state(ctx, st)
    routes = ways(tree, path)
    if ctx.lvl == 1:
        routes = thin(routes)
    held = hold(proj) if path else proj
    before = [(label, obtain(ctx, fn, proj, label)) for label, fn in routes]
    # parents which were obtained before anything was written
    later = routes + [("held " + label, lambda p, fn=fn: fn(held)) for label, fn in (routes if ctx.lvl > 1 else routes[::3]) if path]
    for n in range(2, len(path)):
        parent = real.get(proj, tree, path[:n])
        later.append(("held " + real.show(path[:n]), lambda p, o=parent, n=n: down(o, spec.resolve(tree, path[:n]), path[n:])))
    if any(o is None for _, o in before):
        return
    attrs = [(a, c) for a, c in node.attrs.items() if c.writable() and c.present()]
    if len(before) > 1:
        check_same(ctx, before)
    salt = 0
    for wl, w in before + [("fresh " + label, fn) for label, fn in later]:
        ctx.trace()
        if wl.startswith("fresh"):
            w = obtain(ctx, w, proj, wl)
        for a, c in attrs:
            if spec.structural(node, a):
                continue
            tree = spec.build(st)
            cell = spec.resolve(tree, path).attrs[a]
            vals = cell.few()
            vals = [v for v in vals if not isinstance(cell.write(v), Raises)]
            v = vals[salt % len(vals)]
            salt += 1
            new = spec.apply(st, cell.write(v))
            if names_change(tree, spec.build(new)):
                continue    # done by run_keys
            got = real.outcome(lambda: setattr(w, a, real.convert(v)))
            if got is not None:
                ctx.fail("%s.%s = %s through %s raises %s" % (real.show(path), a, engine.short(v), wl, got[1:]))
                return
            st = new
            ctx.state((wl, a, flpfmt.encode(st)))
            want = spec.resolve(spec.build(st), path).attrs[a].value()
            for rl, r in before:
                read(ctx, r, a, want, path, "written through %s, read through an older %s" % (wl, rl))
            if ctx.fails:
                return
        node2 = spec.resolve(spec.build(st), path)
        for rl, fn in later:
            r = obtain(ctx, fn, proj, rl)
            for a, c in attrs:
                read(ctx, r, a, node2.attrs[a].value(), path, "written through %s, read through a later %s" % (wl, rl))
        if not real.check_saved(ctx, proj, st, "writes to %s through %s" % (real.show(path), wl)) or ctx.fails:
            return
    st = events(ctx, proj, st, path, attrs, before, later)
    if not ctx.fails:
        keys(ctx, proj, st, path, attrs, before)


def planted(j):
    g = Gen(j).head(False).groups(1)
    for i, n in enumerate(("BooBass", "Plucked!", spec.VST)):
        g.channel(i, 2, 0).plug(n, g.vst((2, 54, 1)) if n == spec.VST else g.native(n)).t(203, "chan %d" % i)
    g.raw(99, u16(0)).raw(233, g.plitem(499, 0) + g.plitem(499, 1) + g.plitem(499, 2)).track().raw(100, u16(0))
    g.raw(29, u8(1))
    for names in (("Fruity Balance", "Fruity Send"), ("Fruity Center", spec.VST)):
        g.insert_head()
        for k, n in enumerate(names):
            g.slot(k, n, g.vst((2, 54, 1)) if n == spec.VST else g.native(n))
        g.insert_tail()
    return g.state()


PLUGGED = [(("s", "channels"), ("l", "channels", i)) for i in range(3)] + [(("s", "mixer"), ("l", "inserts", i), ("l", "slots", k)) for i in range(2) for k in range(2)]


def replant(ctx, k):
    """A plugin stored through one handle is the plugin of every other handle, which had been asked for it before."""
    st0 = planted(k)
    tree = spec.build(st0)
    path = PLUGGED[k]
    routes = ways(tree, path)
    same = [q for q in PLUGGED if q[:1] == path[:1] and q != path]
    find = lambda st, q, i: next(x for x in spec.resolve(spec.build(st), q).own if st.events[x][0] == i)
    for wl, w in routes:
        st, proj, src = st0, real.parse_state(ctx, st0), real.parse_state(ctx, st0)
        before = [(label, obtain(ctx, fn, proj, label)) for label, fn in routes]
        [getattr(o, "plugin") for _, o in before]
        for q in same:
            target = obtain(ctx, w, proj, wl)
            target.plugin = getattr(real.get(src, tree, q), "plugin")
            for i in (201, 212, 213):
                st = st.with_event(find(st, path, i), st0.events[find(st0, q, i)][1])
            ctx.state((wl, flpfmt.encode(st)))
            want = spec.resolve(spec.build(st), path).subs["plugin"]
            for label, o in before + [("later " + l, obtain(ctx, fn, proj, l)) for l, fn in routes if "by name" not in l or path[0][1] == "channels"]:
                got = o.plugin
                if not ctx.eq(type(got).__name__, want.cls, "type of the plugin stored through %s, read through %s" % (wl, label)):
                    return
                for a, c in want.attrs.items():
                    read(ctx, got, a, c.value(), path + (("s", "plugin"),), "stored through %s, read through %s" % (wl, label))
                if ctx.fails:
                    return
        ctx.trace()
        if not real.check_saved(ctx, proj, st, "plugins stored through %s" % wl):
            return


def renumber(ctx, k):
    """References go by number: after channels and patterns have exchanged theirs, what layers and clips refer to - read
    through parents that were obtained, and had been read, before - is what has the number now."""
    perms = [(c, p) for c in itertools.permutations((0, 1, 4, 7)) for p in ((1, 2), (2, 1))]
    st = make("alias", 0)
    proj = real.parse_state(ctx, st)
    held = hold(proj)
    arrs, chans, pats = list(held.arrangements), list(held.channels), list(held.patterns)
    at = [n for n, (i, _) in enumerate(st.events) if i == 64]
    own = [[n for n, (i, b) in enumerate(st.events) if i == 65 and b == u16(v)] for v in (1, 2)]

    def look(st, what):
        tree = spec.build(st)
        for a in ("channels", "patterns", "arrangements"):
            ctx.step(real.compare(ctx, tree.subs[a], getattr(held, a), (("s", a),)))
        for n, node in enumerate(tree.subs["arrangements"].lists["arrangements"][1]):
            ctx.step(real.compare(ctx, node, arrs[n], (("s", "arrangements"), ("l", "arrangements", n))))
        ctx.step(real.compare(ctx, tree, proj))
        ctx.state((what, flpfmt.encode(st)))
        ctx.trace()
        if ctx.fails:
            ctx.fail("after the numbers became %s" % (what,))
        return not ctx.fails

    if not look(st, ()):
        return
    done = ()
    for m in [k] + [x for x in range((k * 5) % 7, 48, 7 if ctx.lvl == 1 else 1)]:
        cn, pn = perms[m]
        done += (m,)
        for c, v, n in zip(chans, cn, at):
            c.iid = v
            st = st.with_event(n, u16(v))
        for p, v, ns in zip(pats, pn, own):
            p.iid = v
            for n in ns:
                st = st.with_event(n, u16(v))
        if not look(st, (done, perms[m])):
            return
    real.check_saved(ctx, proj, st, "renumbering %s" % (done,))


def repoint(ctx, depth, first):
    """What a clip refers to is read from the record too, by every handle."""
    st0 = make("alias", 0)
    k = next(n for n, (i, _) in enumerate(st0.events) if i == 233)
    # record 0 is a channel clip, record 1 a pattern clip
    ops = [(h, "channel", 4 if h % 2 else 7) for h in range(4)] + [(h, "pattern", 2 - h % 2) for h in range(4)]
    for n in range(depth):
        for rest in itertools.product(range(8), repeat=n):
            st, proj = st0, real.parse_state(ctx, st0)
            arr = proj.arrangements[0]
            tracks = list(arr.tracks)
            handles = {"channel": [lambda t=list(arr.tracks): t[0][0], lambda t=tracks: t[0][0], lambda a=arr: list(a.tracks)[0][0], lambda: list(proj.arrangements[0].tracks)[0][0]],
                       "pattern": [lambda t=list(arr.tracks): t[1][0], lambda t=tracks: t[1][0], lambda a=arr: list(a.tracks)[1][0], lambda: list(proj.arrangements[0].tracks)[1][0]]}
            cur = {"channel": 1, "pattern": 1}
            for o in (first,) + rest:
                h, kind, num = ops[o]
                if o % 2 == 0 and cur[kind] == num:
                    num = 1
                target = proj.channels[num] if kind == "channel" else next(p for p in proj.patterns if p.iid == num)
                setattr(handles[kind][h](), kind, target)
                cur[kind] = num
                p = st.events[k][1]
                off = 0 if kind == "channel" else 60
                p = p[:off + 6] + u16(num + (20480 if off else 0)) + p[off + 8:]
                st = st.with_event(k, p)
                ctx.state((o, flpfmt.encode(st)))
                for kk in ("channel", "pattern"):
                    for i, f in enumerate(handles[kk]):
                        got = real.outcome(lambda: getattr(f(), kk).iid)
                        if not ctx.eq(got, cur[kk], "%s of a clip through handle %d after re-pointing %s" % (kk, i, (first,) + rest)):
                            return
            ctx.trace()
            if not real.check_saved(ctx, proj, st, "re-pointing %s" % ((first,) + rest,)):
                return


def down(obj, node, path):
    for s in path:
        if s[0] == "s":
            obj, node = getattr(obj, s[1]), node.subs[s[1]]
        else:
            getter, nodes = node.lists[s[1]]
            obj, node = getter(obj)[s[2]], nodes[s[2]]
    return obj


def read(ctx, obj, a, want, path, how):
    got = real.outcome(lambda: getattr(obj, a))
    ctx.step()
    if not real.same(got, want):
        ctx.fail("%s.%s %s reads %s, expected %s" % (real.show(path), a, how, engine.short(got), engine.short(want)))


def obtain(ctx, fn, proj, label):
    got = real.outcome_raw(lambda: fn(proj))
    if isinstance(got, Raises) or got is None:
        ctx.fail("cannot be reached through %s: %s" % (label, got))
        return None
    return got


def check_same(ctx, handles):
    first = handles[0][1]
    if not hasattr(first, "events"):
        return
    want = [id(e) for e in first.events]
    for label, h in handles[1:]:
        ctx.eq([id(e) for e in h.events] == want, True, "%s leads to the events of %s" % (label, handles[0][0]))


def events(ctx, proj, st, path, attrs, before, later):
    """Plain events written through project.events."""
    evs = list(proj.events)
    for a, _ in attrs:
        tree = spec.build(st)
        node = spec.resolve(tree, path)
        cell = node.attrs[a]
        if type(cell) is not spec.Cell or spec.structural(node, a) or not (isinstance(cell.codec, Text) and type(cell.codec) is Text or cell.codec in spec.SCALAR.values()):
            continue
        for v in cell.few()[:3]:
            new = spec.apply(st, cell.write(v))
            if names_change(tree, spec.build(new)):
                continue
            st = new
            evs[cell.idx].value = real.convert(v)
            want = spec.resolve(spec.build(st), path).attrs[a].value()
            ctx.state((a, flpfmt.encode(st)))
            for rl, r in before:
                read(ctx, r, a, want, path, "written through project.events, read through an older %s" % rl)
        for rl, fn in later:
            read(ctx, obtain(ctx, fn, proj, rl), a, want_of(st, path, a), path, "written through project.events, read through a later %s" % rl)
        if ctx.fails:
            return st
    return st


def want_of(st, path, a):
    return spec.resolve(spec.build(st), path).attrs[a].value()


def keys(ctx, proj, st, path, attrs, before):
    """Attributes other objects are found by: all handles taken before stay live, and so does reaching it by position."""
    for a, _ in attrs:
        tree = spec.build(st)
        node = spec.resolve(tree, path)
        cell = node.attrs[a]
        if a in ("version", "internal_name"):
            continue
        old = cell.value()
        for (wl, w), v in zip(itertools.cycle(before), cell.few()):
            if isinstance(cell.write(v), Raises):
                continue
            if not (spec.structural(node, a) or names_change(tree, spec.build(spec.apply(st, cell.write(v))))):
                continue
            if spec.structural(node, a) and refers(tree, node):
                continue
            got = real.outcome(lambda: setattr(w, a, real.convert(v)))
            if got is not None:
                ctx.fail("%s.%s = %s raises %s" % (real.show(path), a, engine.short(v), got[1:]))
                return
            new = spec.apply(st, cell.write(v))
            want = want_of(new, path, a)
            for rl, r in before:
                read(ctx, r, a, want, path, "written through %s, read through an older %s" % (wl, rl))
            fresh = obtain(ctx, lambda p: real.get(p, tree, path), proj, "iteration")
            read(ctx, fresh, a, want, path, "written through %s, read through iteration" % wl)
            real.check_saved(ctx, proj, new, "%s.%s = %s" % (real.show(path), a, engine.short(v)))
            # back to a value which is not a key of something else
            if ctx.fails:
                return
            tree = spec.build(new)
            st, cell = new, spec.resolve(tree, path).attrs[a]


def refers(tree, node):
    """Is this object referred to by number from elsewhere?"""
    return any(n is not node and n.own and n.own == node.own for _, n in tree.walk())


def names_change(a, b):
    """Did a name (or number) change that some route uses as a key?"""
    return keyset(a) != keyset(b)


def keyset(tree):
    out = []
    for path, n in tree.walk():
        for k in ("display_name", "name"):
            if k in n.attrs and n.cls not in ("TimeMarker", "DisplayGroup", "Track", "VSTPlugin"):
                out.append((path, n.attrs[k].value()))
    return out


# --------------------------------------------------------------------------- routes
def hold(proj):
    """An object with all the top-level collections of a project, obtained now."""
    class Held:
        pass
    h = Held()
    for a in ("channels", "patterns", "arrangements", "mixer"):
        try:
            setattr(h, a, getattr(proj, a))
        except Exception:
            pass
    h.project = proj
    return h


def thin(routes):
    """Quick tier: of the combinations of two choices keep those which differ from the default in one place."""
    if len(routes) <= 14:
        return routes
    return [r for r in routes if r[0].count("by ") <= 1][:40]


def ways(tree, path):
    """-> [(label, project -> object)], all routes to the object at this path."""
    out = []
    for p in [path] + aliases(tree, path):
        out += expand(tree, p)
    return out


def aliases(tree, path):
    """Other paths whose prefix leads to the same object as some prefix of this one."""
    out = []
    for n in range(len(path), 0, -1):
        pre = spec.resolve(tree, path[:n])
        if not pre.own and pre.cls != "DisplayGroup":
            continue
        for p, other in tree.walk():
            if p == path[:n]:
                continue
            if other is pre or (other.own and other.own == pre.own):
                if pre.cls == "TimeMarker" or other.cls == "TimeMarker" or p[:n] == path[:n]:
                    continue
                out.append(p + path[n:])
    return [p for p in out if ok_path(p)]


def ok_path(p):
    return True


def expand(tree, path):
    outs = [("project", lambda o: o)]
    node = tree
    for s in path:
        nxt = []
        kid = None
        if s[0] == "s":
            if isinstance(node, spec.Node) and s[1] in node.subs:
                kid = node.subs[s[1]]
            steps = [("." + s[1], lambda o, a=s[1]: getattr(o, a))]
        else:
            src = node
            if s[1] not in node.lists:      # a reference: its contents are those of the object it refers to
                src = next(n for _, n in tree.walk() if n.own and n.own == node.own and s[1] in n.lists)
            getter, nodes = src.lists[s[1]]
            kid = nodes[s[2]]
            steps = [("%s[%d]" % (s[1], s[2]), lambda o, g=getter, i=s[2]: g(o)[i])] + list(other(s[1], s[2], nodes))
        if kid is None and s[0] == "s":
            src = next(n for _, n in tree.walk() if n.own and n.own == node.own and s[1] in n.subs)
            kid = src.subs[s[1]]
        for label, fn in outs:
            for l2, f2 in steps:
                nxt.append((label + ("" if l2[0] == "." else " ") + l2, lambda o, fn=fn, f2=f2: f2(fn(o))))
        outs, node = nxt, kid
    return outs


def first_with(nodes, i, key):
    v = nodes[i].attrs[key].value()
    return v if next(k for k, n in enumerate(nodes) if n.attrs[key].value() == v) == i else None


def other(kind, i, nodes):
    """The other ways to get item i of a collection."""
    if kind == "channels":
        iid = first_with(nodes, i, "iid")
        if iid is not None:
            yield "by number", lambda o, k=iid: o[k]
        name = first_with(nodes, i, "display_name")
        if name:
            yield "by name", lambda o, k=name: o[k]
        cls = nodes[i].cls
        if cls in ("Sampler", "Instrument", "Layer", "Automation"):
            nth = sum(1 for n in nodes[:i] if n.cls == cls)
            yield "by kind", lambda o, a=cls.lower() + "s", k=nth: list(getattr(o, a))[k]
    elif kind in ("patterns", "arrangements", "slots"):
        yield "by index", lambda o: o[i]
        name = first_with(nodes, i, "name")
        if name:
            yield "by name", lambda o, k=name: o[k]
    elif kind == "inserts":
        yield "by index", lambda o: o[i - 1]
        name = first_with(nodes, i, "name")
        if name:
            yield "by name", lambda o, k=name: o[k]
    elif kind == "items":
        yield "by index", lambda o: o[i]
        yield "by negative index", lambda o: o[i - len(nodes)]
    elif kind == "points":
        yield "by index", lambda o: o[i]
    elif kind == "children":
        yield "by number", lambda o, k=nodes[i].attrs["iid"].value(): o[k]
    if kind in ("channels", "patterns", "arrangements", "slots", "inserts", "items", "points", "children"):
        yield "by slice [:]", lambda o: o[:][i]
        yield "by slice [%d:%d]" % (i, i + 1), lambda o: o[i:i + 1][0]
