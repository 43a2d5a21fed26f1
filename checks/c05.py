"""C05: every attribute reads what the stored bytes say."""
from mc import flpfmt, real, spec, templates
from mc.codecs import Raises

LEVEL = "model_checking"
ASSUMPTIONS = [
    "mc/spec.py states the documented place and meaning of every attribute; it shares no code with pyflp",
    "truth values inside structures are stored as 0/1, floats are not NaN, enumerations hold documented members, old-version text is ASCII",
    "structures end at a field boundary; native plugin data, VST records and timestamps are complete",
    "16-bit and wider fields: every bit, its complement, every byte lane and documented limits (thorough: all 65536 values of 16-bit fields, all values of each byte lane)",
]
KEEP = {199, 64, 21, 145, 231, 65, 99, 100, 201, 159}


def sweep_len(lvl):
    n = 0
    for cs in templates.COD.values():
        for c in cs:
            n = max(n, len(templates.raws(c, lvl)))
    return n


def small_len(lvl):
    return max(len(templates.raws(c, lvl)) for c in spec.SCALAR.values())


def BOUNDS(tier):
    lvl = 2 if tier == "thorough" else 1
    return {"variants of the full project": small_len(1), "variants of the channel project": sweep_len(1),
            "variants of each focused project": 16 if lvl == 1 else small_len(2),
            "remote controllers": "all 65536 parameter words, all 8 lengths", "structure truncations": "every field boundary of every structured event", "event removals": "every single event" + (
                "" if lvl == 1 else " and every pair within 6 positions")}


def cases(tier):
    lvl = 2 if tier == "thorough" else 1
    for name in ("sampler", "arrangement"):
        for j in range(sweep_len(1)):
            yield ("sec", name, j, 1)
    for j in range(small_len(1)):
        yield ("rich", j)
        yield ("old", j)
    if lvl == 2:
        for name in templates.SECTIONS:
            for j in range(0, small_len(2)):
                yield ("sec", name, j, 2)
    for name in templates.SECTIONS:
        for j in range(-1, 2):
            st = templates.SECTIONS[name](j)
            for k, (i, p) in enumerate(st.events):
                if i in spec.LAYOUT and i != 217:
                    for b in spec.boundaries(i):
                        if b < len(p):
                            yield ("cut", name, j, k, b)
                if removable(st, k):
                    yield ("drop", name, j, k)
                    if lvl == 2:
                        for m in range(k + 1, min(k + 7, len(st.events))):
                            if removable(st, m):
                                yield ("drop", name, j, k, m)
    yield ("muted",)
    for n in (0, 2, 3, 4, 6, 8, 16, 20):
        for part in range(8):
            yield ("remote", n, part)


def removable(st, k):
    i = st.events[k][0]
    if i == 201:
        rest = [x for x, _ in st.events[k + 1:k + 8]]
        return 213 not in rest
    if i == 238:        # a track's name cannot come before its data
        return k + 1 < len(st.events) and st.events[k + 1][0] != 239
    return i not in KEEP


def run(case, ctx):
    kind = case[0]
    if kind == "rich":
        st = templates.rich(case[1])
    elif kind == "old":
        st = templates.old(case[1])
    elif kind == "sec":
        st = templates.SECTIONS[case[1]](case[2], case[3])
    elif kind == "cut":
        st = templates.SECTIONS[case[1]](case[2])
        st = st.with_event(case[3], st.events[case[3]][1][:case[4]])
    elif kind == "drop":
        st = templates.SECTIONS[case[1]](case[2]).without(*case[3:])
    elif kind == "remote":
        ctx.count(kind)
        return remote(ctx, case[1], case[2])
    else:
        return muted(ctx)
    ctx.count(kind)
    real.check_project(ctx, st, own=False)


def muted(ctx):
    """The documented 'muted' flag of playlist items."""
    p = real.parse_state(ctx, templates.sec_arrangement(0))
    for a, arr in enumerate(p.arrangements):
        for t, track in enumerate(arr.tracks):
            for k, item in enumerate(track):
                ctx.step()
                got = real.outcome(lambda: item.muted)
                if isinstance(got, Raises):
                    ctx.fail("PLItemBase.muted reads %s, expected a truth value" % (got[1],))


def remote(ctx, size, part):
    """Remote controllers: the parameter number and the VST bit, for all 65536 stored values and all event lengths."""
    rc = real.MODS["controller"].RemoteController
    head = (199, templates.T("20.8.4", "ascii"))
    fill = bytes((k * 37 + 11) & 0xFF for k in range(20))
    values = range(0x10000) if size == 20 else (0, 1, 0x7FFF, 0x8000, 0xFFFF, 0x1234)
    for start in range(part * 64, len(values), 64 * 8):
        block = values[start:start + 64]
        datas = [(fill[:4] + templates.u16(v) + fill[6:])[:size] for v in block]
        st = flpfmt.State((head,) + tuple((227, d) for d in datas))
        p = real.parse_state(ctx, st)
        ctx.state(flpfmt.encode(st))
        ctx.trace()
        for v, e in zip(block, list(p.events)[1:]):
            o = rc(p.events.subtree(lambda x: x is e))
            ctx.step(2)
            want = (None, None) if size < 6 else (v & 0x7FFF, bool(v & 0x8000))
            got = (real.outcome(lambda: o.parameter), real.outcome(lambda: o.controls_vst))
            if got != want:
                ctx.fail("remote controller of %d bytes with parameter data %d reads %s, expected %s" % (size, v, got, want))
                return
        real.check_saved(ctx, p, st, "remote controllers")
