"""C06: a successful write reads back and survives save and reload."""
import math

from mc import engine, flpfmt, real, spec, templates, writes
from mc.codecs import Raises

LEVEL = "model_checking"
ASSUMPTIONS = ["values are those representable in the attribute's field; assigned objects have the documented type",
               "8-bit fields, enumerations and flags: complete; wider fields: every bit, complement, byte lanes and documented limits"]
PARTS = 16


def BOUNDS(tier):
    return {"attributes": "every writable attribute of every section (two siblings each)", "values": "the whole enumerated domain of each, written in one history",
            "save+reload": "two values of each attribute" if tier == "quick" else "every value",
            "in-between values": "7 quantised attributes x 1538 to 5358 values between storable ones", "backgrounds": 1 if tier == "quick" else 4}


def cases(tier):
    for name in templates.SECTIONS:
        for j in range(-1, 1 if tier == "quick" else 4):
            for part in range(PARTS):
                yield (name, j, part)


    for what in ("tempo", "tempo-old", "color", "trackcolor", "multiplier", "start", "length"):
        for part in range(4):
            yield ("nearest", what, part)


NEAR = {"tempo": (range(100000, 5220001, 3331), 10000), "tempo-old": (range(100000, 5220001, 3331), 10000),
        "color": (range(0, 5101), 5100), "trackcolor": (range(0, 5101), 5100),
        "multiplier": (range(2500, 40001, 7), 10000), "start": (range(1, 5001), 5000), "length": (range(1, 5001), 5000)}


def nearest(ctx, what, part):
    """Values between two storable ones: after save and reload the nearest of the two is read."""
    ns, den = NEAR[what]
    vals = [n / den for n in ns][part::4]
    if what.startswith("tempo"):
        st = flpfmt.State(((199, b"20.8.4\0" if what == "tempo" else b"9.0.0\0"),) + (
            ((156, templates.u32(120000)),) if what == "tempo" else ((66, templates.u16(120)), (93, templates.u16(0)))))
        proj = real.parse_state(ctx, st)
        for v in vals:
            proj.tempo = v
            real.save_bytes(ctx, proj)
            judge(ctx, what, v, real.pyflp.parse(ctx.scratch + "/out.flp").tempo, lambda x: 1000 * x)
        return ctx.trace()
    g = templates.Gen(0).head(False).groups(1)
    if what == "trackcolor":
        g.raw(99, templates.u16(0))
        for _ in vals:
            g.track(False)
        g.raw(100, templates.u16(0))
        objs = lambda p: [t for t in list(p.arrangements)[0].tracks]
    else:
        for k, _ in enumerate(vals):
            g.channel(k, 0).s(128).st(215)
        objs = lambda p: [c for c in p.channels]
    proj = real.parse_state(ctx, g.state())
    if "color" in what:
        for o, v in zip(objs(proj), vals):
            o.color = real.PT.RGBA(v, 1 - v, v, 0.0)
        get = lambda o, k: (o.color[0], o.color[2])[k % 2]
        scale = lambda x: 255 * x
    elif what == "multiplier":
        for o, v in zip(objs(proj), vals):
            o.stretching.multiplier = v
        get = lambda o, k: o.stretching.multiplier
        scale = lambda x: 10000 * math.log2(x)
    else:
        for o, v in zip(objs(proj), vals):
            setattr(o.fx, what, v)
        get = lambda o, k: getattr(o.fx, what)
        scale = lambda x: 4096 * math.log2(x)
    real.save_bytes(ctx, proj)
    for k, (o, v) in enumerate(zip(objs(real.pyflp.parse(ctx.scratch + "/out.flp")), vals)):
        judge(ctx, what, v, get(o, k), scale)
    ctx.trace()


def judge(ctx, what, v, got, scale):
    ctx.step(2)
    ctx.state((what, v))
    if not isinstance(got, (int, float)) or abs(scale(got) - scale(v)) > 0.5 + 1e-6 * abs(scale(v)):
        ctx.fail("%s = %r reads %r after save and reload, which is not the nearest storable value" % (what, v, got))


def run(case, ctx):
    if case[0] == "nearest":
        return nearest(ctx, *case[1:])
    name, j, part = case
    st0 = templates.SECTIONS[name](j)
    tree0 = spec.build(st0)
    raw = flpfmt.encode(st0)
    proj = real.parse_bytes(ctx, raw)
    st, tree = st0, tree0
    for n, (path, node, attr, cell) in enumerate(list(spec.writable(tree0))):
        if n % PARTS != part:
            continue
        ctx.count("attributes")
        if spec.structural(node, attr):
            for v in cell.few():
                single(ctx, st0, tree0, path, attr, v)
            continue
        domain(ctx, proj, st, path, attr)
        cell = spec.resolve(tree, path).attrs[attr]
        vals = cell.few() if ctx.lvl == 1 else (cell.vals(1)[:60] + cell.few())
        st = sync(st, proj, ctx)
        tree = spec.build(st)
        for k, v in enumerate(vals):
            st, tree = writes.step(ctx, proj, st, tree, path, attr, v)
            if k < 2 or ctx.lvl == 2:
                reload(ctx, st, path, attr)
            ctx.trace()


def sync(st, proj, ctx):
    """The model state after domain(): decoded from what is saved (already compared value by value)."""
    return flpfmt.decode(real.save_bytes(ctx, proj))


def domain(ctx, proj, st, path, attr):
    """Writes every value of the domain in turn; each must read back through the same and a fresh object."""
    tree = spec.build(st)
    obj = real.get(proj, tree, path)
    cell = spec.resolve(tree, path).attrs[attr]
    direct = type(cell) in (spec.Cell, spec.VSTCell)
    payload = cell.payload
    evs = list(proj.events)
    for v in cell.vals(ctx.lvl):
        w = cell.write(v)
        if isinstance(w, Raises):
            continue
        rv = real.convert(v)
        got = real.outcome(lambda: setattr(obj, attr, rv))
        ctx.step(3)
        if got is not None:
            ctx.fail("%s.%s = %s raises %s" % (real.show(path), attr, engine.short(v), got[1:]))
            break
        if direct:
            payload = cell.codec.enc(payload, v)
            want = cell.codec.dec(payload)
            if bytes(evs[cell.idx]) != flpfmt.enc_event(st.events[cell.idx][0], payload):
                ctx.fail("%s.%s = %s: the event does not hold it: %s" % (real.show(path), attr, engine.short(v), bytes(evs[cell.idx])[:40].hex()))
                break
        else:
            want = None
        asked = real.norm(rv)
        for who, o in (("same object", obj), ("fresh object", real.get(proj, tree, path))):
            back = real.outcome(lambda: getattr(o, attr))
            if direct and not real.same(back, want):
                ctx.fail("%s.%s = %s reads back %s (%s)" % (real.show(path), attr, engine.short(v), engine.short(back), who))
            if not direct and not same_value(attr, back, asked, v):
                ctx.fail("%s.%s = %s reads back %s (%s)" % (real.show(path), attr, engine.short(v), engine.short(back), who))
        ctx.state((real.show(path), attr, repr(v)))


def same_value(attr, back, asked, v):
    if attr == "key" and isinstance(v, int):
        return back == spec.key_name(v)
    if attr == "version":
        return True
    return real.same(back, asked)


def reload(ctx, st, path, attr):
    """What was saved last parses back to the written value."""
    want = writes.new_value(st, path, attr)
    again = real.pyflp.parse(ctx.scratch + "/out.flp")
    got = real.outcome(lambda: getattr(real.get(again, spec.build(st), path), attr))
    ctx.step(2)
    if not real.same(got, want):
        ctx.fail("%s.%s reads %s after save and reload, expected %s" % (real.show(path), attr, engine.short(got), engine.short(want)))


def single(ctx, st, tree, path, attr, v):
    """A write to an attribute that changes how other events are interpreted: on its own project."""
    proj = real.parse_bytes(ctx, flpfmt.encode(st))
    w = spec.resolve(tree, path).attrs[attr].write(v)
    obj = real.get(proj, tree, path)
    what = "%s.%s = %s" % (real.show(path), attr, engine.short(v))
    rv = real.convert(v)
    got = real.outcome(lambda: setattr(obj, attr, rv))
    ctx.step(2)
    ctx.trace()
    if got is not None:
        return ctx.fail("%s raises %s" % (what, got[1:]))
    back = real.outcome(lambda: getattr(obj, attr))
    new = spec.apply(st, w)
    ctx.state(flpfmt.encode(new))
    if attr != "version" and not real.same(back, real.norm(rv)):
        ctx.fail("%s reads back %s" % (what, engine.short(back)))
    real.check_saved(ctx, proj, new, what)
    if attr == "version":
        ver = tuple(int(x) for x in v.split("."))
        for p in (proj, real.pyflp.parse(ctx.scratch + "/out.flp")):
            g = p.version
            ctx.eq((g.major, g.minor, g.patch, g.build), (ver + (None,))[:4], what)
    elif attr == "iid":
        again = real.pyflp.parse(ctx.scratch + "/out.flp")
        coll = again.channels if path[0][1] == "channels" else again.patterns
        ctx.step()
        if v not in [x.iid for x in coll]:
            ctx.fail("%s: not found after save and reload" % what)
