"""C07: a write changes only what it names."""
from mc import engine, flpfmt, real, spec, templates, writes
from mc.codecs import Raises

LEVEL = "model_checking"
ASSUMPTIONS = ["the bytes that encode an attribute are given by mc/spec.py",
               "attributes that decide how other events are interpreted (plugin name, channel / pattern number, version) are written on their own"]
PARTS = 16


def BOUNDS(tier):
    return {"single writes": "every writable attribute x its few edge values, in one long history per part; the whole file compared after each, the whole object tree after each attribute",
            "twins": "the same on projects in which all objects of a kind store exactly the same payloads",
            "backgrounds": 1 if tier == "quick" else 6,
            "pairs": "all ordered pairs of attributes stored in the same event, both orders" + ("" if tier == "quick" else "; all ordered pairs of attributes of the same object and of neighbouring objects")}


def cases(tier):
    js = 1 if tier == "quick" else 6
    for name in sorted(templates.SECTIONS, key=lambda n: n not in ("sampler", "effects", "arrangement", "mixer")):
        for j in range(js):
            for part in range(PARTS):
                yield ("single", name, j, part)
        for part in range(PARTS):
            yield ("single", name, -1, part)
    for name in templates.SECTIONS:
        for j in range(1 if tier == "quick" else 2):
            st = templates.SECTIONS[name](j)
            idxs = sorted({c.idx for _, _, _, c in spec.writable(spec.build(st), False) if c.idx is not None})
            for k in idxs:
                if st.events[k][0] in spec.STRUCT_IDS or st.events[k][0] in spec.LIST_IDS or st.events[k][0] in (213, 70, 138, 143, 144, 139):
                    yield ("event", name, j, k)
    if tier == "thorough":
        for name in templates.SECTIONS:
            n = sum(1 for _ in spec.writable(spec.build(templates.SECTIONS[name](0)), False))
            for a in range(n):
                yield ("pairs", name, 0, a)


def run(case, ctx):
    kind, name, j = case[:3]
    ctx.count(kind)
    st = templates.SECTIONS[name](j)
    if kind == "single":
        single(ctx, st, case[3])
    elif kind == "event":
        same_event(ctx, st, case[3])
    else:
        pairs(ctx, st, case[3])


def single(ctx, st, part):
    tree = spec.build(st)
    raw = flpfmt.encode(st)
    proj = real.parse_bytes(ctx, raw)
    for n, (path, node, attr, cell) in enumerate(list(spec.writable(tree))):
        if n % PARTS != part:
            continue
        ctx.trace()
        if spec.structural(node, attr):
            for v in cell.few():
                p2 = real.parse_bytes(ctx, raw)
                t2 = spec.build(templates_state(raw))
                what = "%s.%s = %s" % (real.show(path), attr, engine.short(v))
                if writes.set_attr(ctx, p2, t2, path, attr, v) is None:
                    w = spec.resolve(t2, path).attrs[attr].write(v)
                    real.check_saved(ctx, p2, spec.apply(templates_state(raw), w), what)
            continue
        vals = spec.resolve(tree, path).attrs[attr].few()
        for k, v in enumerate(vals):
            st, tree = writes.step(ctx, proj, st, tree, path, attr, v, full=k == len(vals) - 1)
        if len(ctx.fails) > 6:
            return


def templates_state(raw):
    return flpfmt.decode(raw)


def same_event(ctx, st, idx):
    """All ordered pairs of writes to attributes stored in one event: bytes and values of all of them."""
    raw = flpfmt.encode(st)
    tree = spec.build(st)
    cells = [(path, attr) for path, node, attr, c in spec.writable(tree, False) if touches(c, idx)]
    if len(cells) > 40 and ctx.lvl == 1:
        cells = cells[:20] + cells[-20:]
    proj = real.parse_bytes(ctx, raw)
    objs = {}
    for path, attr in cells:
        objs[path] = real.get(proj, tree, path)
    evs = list(proj.events)
    id = st.events[idx][0]
    r = 0
    for x, (pa, a) in enumerate(cells):
        for y, (pb, b) in enumerate(cells):
            r += 1
            for path, attr in ((pa, a), (pb, b)):
                cell = spec.resolve(tree, path).attrs[attr]
                vals = cell.few()
                v = vals[(r + (r // len(vals))) % len(vals)]
                w = cell.write(v)
                if isinstance(w, Raises):
                    continue
                got = real.outcome(lambda: setattr(objs[path], attr, real.convert(v)))
                ctx.step()
                st = spec.apply(st, w)
                tree = spec.build(st) if type(cell) not in (spec.Cell, spec.VSTCell) else refresh(tree, idx, st)
                if got is not None:
                    return ctx.fail("%s.%s = %r raises %s" % (real.show(path), attr, v, got[1:]))
                have, want = bytes(evs[idx]), flpfmt.enc_event(id, st.events[idx][1])
                ctx.step()
                if have != want:
                    return ctx.fail("event %d (id %d) after %s.%s then %s.%s = %s: %s, expected %s" % (
                        idx, id, real.show(pa), a, real.show(pb), b, engine.short(v), have[:80].hex(), want[:80].hex()))
            ctx.state(flpfmt.enc_event(id, st.events[idx][1]) + bytes((idx % 256,)))
        ctx.trace()
        for path, attr in cells:
            want = spec.resolve(tree, path).attrs[attr].value()
            got = real.outcome(lambda: getattr(objs[path], attr))
            ctx.step()
            if not real.same(got, want):
                return ctx.fail("%s.%s reads %s, expected %s" % (real.show(path), attr, engine.short(got), engine.short(want)))
    real.check_saved(ctx, proj, st, "after all pairs")


def touches(cell, idx):
    if cell.idx is not None:
        return cell.idx == idx
    w = cell.write(cell.few()[0])
    return not isinstance(w, Raises) and set(w) == {idx}


def refresh(tree, idx, st):
    """Updates the payload of the plain cells of one event instead of rebuilding the tree."""
    p = st.events[idx][1]
    for _, node in tree.walk():
        for c in node.attrs.values():
            if c.idx == idx:
                c.payload = p
            elif type(c) is spec.Fn:
                return spec.build(st)
    return tree


def pairs(ctx, st, x):
    raw = flpfmt.encode(st)
    cells = [(path, attr) for path, node, attr, c in spec.writable(spec.build(st), False)]
    pa, a = cells[x]
    proj = real.parse_bytes(ctx, raw)
    tree = spec.build(st)
    for y, (pb, b) in enumerate(cells):
        for path, attr, k in ((pa, a, y), (pb, b, x + y)):
            vals = spec.resolve(tree, path).attrs[attr].few()
            st, tree = writes.step(ctx, proj, st, tree, path, attr, vals[k % len(vals)], save=path is pb)
        ctx.trace()
        if len(ctx.fails) > 4:
            return
