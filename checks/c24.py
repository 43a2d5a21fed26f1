"""C24: edits of events show in the file and in every model obtained afterwards."""
from mc import flpfmt, real, spec, templates
from checks import c05

LEVEL = "model_checking"
ASSUMPTIONS = ["only events whose absence leaves a well-formed file are removed (not the version, group, channel, pattern and arrangement starts)",
               "views obtained before an edit that was made through another view are not looked at again (edits reach the ancestors of the edited view only)",
               "an event is not inserted into a view that holds no event"]


def BOUNDS(tier):
    return {"removals": "every removable event of every section (%d variants), through every object that holds it, everything read before" % (1 if tier == "quick" else 6),
            "insertions": "after every removal%s, the same event and a fresh one with other contents, through every view whose insertion slots include its place" % (" through the project or the innermost object" if tier == "quick" else ""),
            "pairs": "every two removable events at most %d apart, removed and put back in %s, through the whole list and through the innermost view" % ((2, "4 of the 8 orders") if tier == "quick" else (12, "all orders")),
            "exchanges": "the same pairs: one present and read, the other absent; one taken out and the other put in with no look in between",
            "observed": "the saved file, every attribute of every object obtained afterwards, the event list of the object edited"}


def cases(tier):
    for name in templates.SECTIONS:
        for j in range(-1, 1 if tier == "quick" else 6):
            st = templates.SECTIONS[name](j)
            for k in range(len(st.events)):
                if c05.removable(st, k):
                    yield ("one", name, j, k)
    for name in templates.SECTIONS:
        st = templates.SECTIONS[name](0)
        for k in range(len(st.events)):
            for m in range(k + 1, min(len(st.events), k + (3 if tier == "quick" else 13))):
                if c05.removable(st, k) and c05.removable(st, m):
                    yield ("two", name, 0, k, m)
                    yield ("swap", name, 0, k, m)
                    yield ("swap", name, 0, m, k)


def walk(node, obj, path=()):
    yield path, obj
    for n, sub in node.subs.items():
        if sub is not None:
            yield from walk(sub, getattr(obj, n), path + (("s", n),))
    for n, (getter, nodes) in node.lists.items():
        for i, (sub, o) in enumerate(zip(nodes, getter(obj))):
            yield from walk(sub, o, path + (("l", n, i),))


def views(proj, tree, e):
    """[(path, object, position among the events of its ID, position)] of all objects holding the event, the project first"""
    out = []
    for path, obj in walk(tree, proj):
        evs = getattr(obj, "events", None)
        if evs is None:
            continue
        evs = list(evs)
        for n, x in enumerate(evs):
            if x is e:
                out.append((path, obj, sum(1 for y in evs[:n] if y.id == e.id), n))
    return out


def slots(proj, tree, root, k, owners):
    """[(path, object, position)] of the owners where inserting puts an event at place k of the project's list"""
    out = []
    at = {id(e): n for n, e in enumerate(root)}
    for path, obj in walk(tree, proj):
        if path not in owners:
            continue
        evs = getattr(obj, "events", None)
        if evs is None or not len(evs):
            continue
        pos = [at[id(e)] for e in evs]
        for n in range(len(pos) + 1):
            if (pos[n] if n < len(pos) else pos[-1] + 1) == k:
                out.append((path, obj, n))
                break
    return out


def look(ctx, proj, st, what, held=None):
    """The file and everything obtained now (and the object edited) follow st."""
    n0 = len(ctx.fails)
    tree = spec.build(st)
    real.check_saved(ctx, proj, st, "file")
    ctx.step(real.compare(ctx, tree, proj, (), list(proj.events), True))
    if held is not None:
        path, obj, want = held
        ctx.step()
        if [id(e) for e in obj.events] != [id(e) for e in want]:
            ctx.fail("%s, through which it was done, holds other events than it should" % real.show(path))
    ctx.state(flpfmt.encode(st))
    for i in range(n0, len(ctx.fails)):
        ctx.fails[i] = "%s: %s" % (what, ctx.fails[i])
    return len(ctx.fails) == n0


def run(case, ctx):
    ctx.count(case[0])
    st = templates.SECTIONS[case[1]](case[2])
    globals()["run_" + case[0]](ctx, case[1], st, *case[2:])


def setup(ctx, st, read=True):
    proj = real.parse_state(ctx, st)
    tree = spec.build(st)
    if read:
        ctx.step(real.compare(ctx, tree, proj, ()))
    return proj, tree


def other(name, j, st, k):
    """Another payload of the same event, from another variant of the section."""
    for jj in (j + 1, j + 2, j + 3):
        st2 = templates.SECTIONS[name](jj)
        if [i for i, _ in st2.events] == [i for i, _ in st.events] and st2.events[k][1] != st.events[k][1]:
            return st2.events[k][1]
    return None


def run_one(ctx, name, st, j, k):
    gone = st.without(k)
    new = other(name, j, st, k) if st.events[k][0] not in (213,) else None
    proj, tree = setup(ctx, st)
    holders = [v[0] for v in views(proj, tree, list(proj.events)[k])]
    what = "%s/%d without event %d (id %d)" % (name, j, k, st.events[k][0])
    for h in range(len(holders)):
        proj, tree = setup(ctx, st)
        e = list(proj.events)[k]
        path, obj, pos, n = views(proj, tree, e)[h]
        want = [x for x in obj.events if x is not e]
        got = obj.events.pop(e.id, pos)
        ctx.step()
        if got is not e:
            return ctx.fail("%s: %s.events.pop(%d, %d) returned another event" % (what, real.show(path), e.id, pos))
        if not look(ctx, proj, gone, "%s, removed through %s" % (what, real.show(path)), (path, obj, want)):
            return
        ctx.trace()
        if ctx.lvl == 1 and 0 < h < len(holders) - 1:
            continue
        tree2 = spec.build(gone)
        targets = slots(proj, tree2, list(proj.events), k, holders)
        for t in range(len(targets)):
            for payload in (None, new) if new is not None else (None,):
                p2, t2 = setup(ctx, st, False)
                e2 = list(p2.events)[k]
                path, obj, pos, n = views(p2, t2, e2)[h]
                obj.events.pop(e2.id, pos)
                path2, obj2, n2 = slots(p2, tree2, list(p2.events), k, holders)[t]
                e3 = e2 if payload is None else type(e2)(e2.id, payload)
                want = list(obj2.events)
                want.insert(n2, e3)
                obj2.events.insert(n2, e3)
                ctx.step(2)
                if not look(ctx, p2, st if payload is None else st.with_event(k, payload), "%s, removed through %s, %s through %s" % (
                        what, real.show(path), "put back" if payload is None else "replaced", real.show(path2)), (path2, obj2, want)):
                    return
                ctx.trace()


def run_two(ctx, name, st, j, k, m):
    for first, inner, back in ((a, b, c) for a in (0, 1) for b in (0, -1) for c in (0, 1)
                               if ctx.lvl > 1 or (a + b + c) % 2 == 0):
        proj, tree = setup(ctx, st, first == 0)
        evs = list(proj.events)
        now = list(range(len(evs)))
        owners = {x: [v[0] for v in views(proj, tree, evs[x])] for x in (k, m)}
        what = "%s, events %d and %d, %s removed first, %s put back first" % (name, k, m, "km"[first], "km"[back])

        def cur():
            return st._replace(events=tuple(st.events[n] for n in now))

        for x in ((k, m) if not first else (m, k)):
            path, obj, pos, n = views(proj, spec.build(cur()), evs[x])[inner]
            want = [y for y in obj.events if y is not evs[x]]
            obj.events.pop(evs[x].id, pos)
            now.remove(x)
            if not look(ctx, proj, cur(), "%s: removed %d through %s" % (what, x, real.show(path)), (path, obj, want)):
                return
        for x in ((k, m) if not back else (m, k)):
            at = sum(1 for n in now if n < x)
            path, obj, n = slots(proj, spec.build(cur()), list(proj.events), at, owners[x])[inner]
            want = list(obj.events)
            want.insert(n, evs[x])
            obj.events.insert(n, evs[x])
            now.insert(at, x)
            if not look(ctx, proj, cur(), "%s: put back %d through %s" % (what, x, real.show(path)), (path, obj, want)):
                return
        ctx.trace()


def run_swap(ctx, name, st, j, k, m):
    """Event k goes, event m comes, with no look in between: the number of events stays the same."""
    donor, tree = setup(ctx, st, False)
    owners = [v[0] for v in views(donor, tree, list(donor.events)[m])]
    start, end = st.without(m), st.without(k)
    both = spec.build(st.without(k, m))
    at = m - (k < m)
    for via in (0, -1):
        e = list(setup(ctx, st, False)[0].events)[m]
        proj, tree = setup(ctx, start)
        x = list(proj.events)[k - (m < k)]
        path, obj, pos, n = views(proj, tree, x)[via]
        obj.events.pop(x.id, pos)
        if via:
            path, obj, n = slots(proj, both, list(proj.events), at, owners)[via]
            obj.events.insert(n, e)
        else:
            proj.events.insert(at, e)
        ctx.step(2)
        if not look(ctx, proj, end, "%s: event %d removed, event %d added" % (name, k, m)):
            return
        ctx.trace()
