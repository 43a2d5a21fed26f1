"""C18: event objects enforce their ID range and size."""
import itertools
import struct

from mc import engine, flpfmt, real, spec, templates
from mc.codecs import Raises
from mc.flpfmt import varint
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["event values are compared as Python compares them (True equals 1)"]

FIXED = {"BoolEvent": (1, (0, 63)), "I8Event": (1, (0, 63)), "U8Event": (1, (0, 63)),
         "I16Event": (2, (64, 127)), "U16Event": (2, (64, 127)),
         "F32Event": (4, (128, 191)), "I32Event": (4, (128, 191)), "U32Event": (4, (128, 191)), "U16TupleEvent": (4, (128, 191)), "ColorEvent": (4, (128, 191))}
TEXTS = {"AsciiEvent": "ascii", "UnicodeEvent": "utf-16-le"}
TEXT_IDS = frozenset(range(192, 208)) | {231, 239, 241}
# value -> stored form of the fixed-size kinds
VALUES = {
    "BoolEvent": [(True, b"\1"), (False, b"\0")],
    "I8Event": [(v, struct.pack("<b", v)) for v in range(-128, 128)],
    "U8Event": [(v, u8(v)) for v in range(256)],
    "I16Event": [(v, struct.pack("<h", v)) for v in list(range(-32768, 32768, 257)) + [-1, 0, 1, 255, 256, -256, 32767]],
    "U16Event": [(v, u16(v)) for v in list(range(0, 65536, 257)) + [1, 255, 256, 32767, 32768]],
    "F32Event": [(v, struct.pack("<f", v)) for v in (0.0, 1.0, -1.0, 0.5, 1e10, -0.125, 2.0 ** 100, 16777216.0)],
    "I32Event": [(v, struct.pack("<i", v)) for k in range(31) for v in (1 << k, -(1 << k), (1 << k) - 1)] + [(-(1 << 31), b"\0\0\0\x80")],
    "U32Event": [(v, u32(v)) for k in range(32) for v in (1 << k, (1 << k) - 1)] + [(0xFFFFFFFF, b"\xff" * 4)],
    "U16TupleEvent": [((a, b), u16(a) + u16(b)) for a in (0, 1, 255, 256, 32768, 65535) for b in (0, 1, 255, 256, 32768, 65535)],
    "ColorEvent": [(("rgba", bytes((a, b, c, d))), bytes((a, b, c, d))) for a in (0, 1, 128, 255) for b in (0, 7, 255) for c in (0, 200, 255) for d in (0, 255)],
}
LENS = tuple(range(0, 9)) + (62, 63, 64, 126, 127, 128, 129, 254, 255, 256, 8190, 8191, 8192, 16382, 16383, 16384, 16385, 32766, 32767, 32768, 70000)
BIG = ((1 << 21) - 1, 1 << 21, (1 << 21) + 1)


def BOUNDS(tier):
    return {"construction": "%d fixed-size and 2 text classes x all 256 IDs x payload lengths 0..8" % len(FIXED),
            "values": "every 8-bit value, every 257th 16-bit value, every bit of 32-bit values, each on every 7th ID of its range",
            "lengths": "all %d payload lengths around the prefix boundaries (and 2^21) for text, unknown and structured events" % len(LENS),
            "equality": "all pairs of a set of %d events, and 12 foreign objects" % (160 if tier == "quick" else 400),
            "parsed": "size of every event of the rich projects after every single write"}


def cases(tier):
    for name in list(FIXED) + list(TEXTS):
        for lo in range(0, 256, 32):
            yield ("make", name, lo)
    for name in FIXED:
        yield ("values", name)
    for name in TEXTS:
        for k in range(4):
            yield ("text", name, k)
    for k in range(4):
        yield ("data", k)
    for k in range(8):
        yield ("equal", k, tier)
    for sec in templates.SECTIONS:
        for j in range(-1, 1 if tier == "quick" else 8):
            for part in range(4):
                yield ("parsed", sec, j, part)
    yield ("unknown",)
    yield ("base",)


def run(case, ctx):
    ctx.count(case[0])
    globals()["run_" + case[0]](ctx, *case[1:])


def cls(name):
    return getattr(real.E, name)


def make(name, id, data):
    return cls(name)(real.E.EventEnum(id), data)


def run_make(ctx, name, lo):
    for id in range(lo, lo + 32):
        for n in range(0, 9):
            data = bytes((65 + k) % 256 if k % 2 == 0 else 0 for k in range(n))
            if name in TEXTS:
                if name == "UnicodeEvent" and n % 2:
                    continue
                if name == "AsciiEvent":
                    data = bytes(65 + k for k in range(n))
                ok, want = id in TEXT_IDS, ("EventIDOutOfRange",)
            else:
                size, (a, b) = FIXED[name]
                if name == "BoolEvent":
                    data = bytes(n)
                in_range = a <= id <= b
                ok = in_range and n == size
                want = ("EventIDOutOfRange",) if not in_range else ("InvalidEventChunkSize",)
                if not in_range and id < 192 and n != (1 if id < 64 else 2 if id < 128 else 4):
                    want = ("EventIDOutOfRange", "InvalidEventChunkSize")
            # IDs are accepted as plain numbers too
            for key in (real.E.EventEnum(id), id):
                got = real.outcome_raw(lambda: cls(name)(key, data))
                ctx.step()
                if ok:
                    if isinstance(got, Raises):
                        ctx.fail("%s(%d, %d bytes) raises %s" % (name, id, n, got[1:]))
                    elif bytes(got) != flpfmt.enc_event(id, data) or got.id != id:
                        ctx.fail("%s(%d, %r) serialises as %r" % (name, id, data, bytes(got)))
                    elif got.size != len(bytes(got)):
                        ctx.fail("%s(%d, %r).size is %d" % (name, id, data, got.size))
                elif not isinstance(got, Raises):
                    ctx.fail("%s(%d, %d bytes) is accepted" % (name, id, n))
                elif not set(want) & set(got[1:]):
                    ctx.fail("%s(%d, %d bytes) raises %s, expected %s" % (name, id, n, got[1], want))
            ctx.state((name, id, n))
    ctx.trace()


def run_values(ctx, name):
    size, (a, b) = FIXED[name]
    for id in list(range(a, b + 1, 7)) + [b]:
        e = make(name, id, VALUES[name][0][1])
        for v, raw in VALUES[name]:
            f = make(name, id, raw)
            want = real.convert(v)
            ctx.eq(same(f.value, want), True, "%s %d of %r" % (name, id, raw))
            ctx.eq(bytes(f), bytes((id,)) + raw, "%s %d of %r serialised" % (name, id, raw))
            e.value = want
            ctx.eq(bytes(e), bytes((id,)) + raw, "%s %d set to %r" % (name, id, v))
            ctx.eq((e.size, f.size), (size + 1,) * 2, "%s %d sizes" % (name, id))
            ctx.eq((e == f, e != f), (True, False), "%s %d set to %r equals a new one" % (name, id, v))
            ctx.state((name, id, raw))
    ctx.trace()


def same(a, b):
    return real.same(real.outcome(lambda: a), real.outcome(lambda: b))


def run_text(ctx, name, part):
    enc = TEXTS[name]
    w = 2 if enc != "ascii" else 1
    ids = sorted(TEXT_IDS)[part::4]
    lens = [n // w for n in LENS] + [n // w - 1 for n in LENS if n >= w]
    for id in ids:
        e = make(name, id, T("start", enc))
        for n in lens + ([x // w for x in BIG] if id == ids[0] else []):
            s = ("abc\u00e9\u4e2d" if w == 2 else "abcXY") * (n // 5 + 1)
            s = s[:n]
            raw = (s + "\0").encode(enc)
            full = bytes((id,)) + varint(len(raw)) + raw
            f = make(name, id, raw)
            ctx.eq((f.value == s, bytes(f) == full, f.size), (True, True, len(full)), "%s %d of %d characters" % (name, id, n))
            e.value = s
            ctx.eq((bytes(e) == full, e.size), (True, len(full)), "%s %d set to %d characters" % (name, id, n))
            ctx.eq((e == f, e != f), (True, False), "%s %d of %d characters equality" % (name, id, n))
            ctx.state((name, id, n))
    ctx.trace()


def run_data(ctx, part):
    for id in list(range(192, 256))[part::4]:
        for n in LENS + (BIG if id % 16 == part else ()):
            data = bytes((k * 7 + 1) & 255 for k in range(n))
            e = real.E.UnknownDataEvent(real.E.EventEnum(id), data)
            full = bytes((id,)) + varint(n) + data
            ctx.eq((bytes(e) == full, e.size, e.value == data), (True, len(full), True), "data event %d of %d bytes" % (id, n))
            e.value = data[1:] + b"!!"
            full = bytes((id,)) + varint(len(e.value)) + data[1:] + b"!!"
            ctx.eq((bytes(e) == full, e.size), (True, len(full)), "data event %d of %d bytes, changed" % (id, n))
            ctx.state((id, n))
    ctx.trace()


def run_unknown(ctx):
    """Parsed events of IDs nobody knows obey the same sizes."""
    evs = [(199, T("20.8.4", "ascii"))]
    for id in range(256):
        if id in spec.STRUCT_IDS or id in spec.LIST_IDS or id in (199, 213):
            continue
        evs.append((id, T("txt") if id in TEXT_IDS else b"\1" * (1 if id < 64 else 2 if id < 128 else 4) if id < 192 else b"some data"))
    st = flpfmt.State(tuple(evs))
    proj = real.parse_state(ctx, st)
    got = list(proj.events)
    ctx.eq(len(got), len(evs), "number of events")
    for e, (id, p) in zip(got, evs):
        full = flpfmt.enc_event(id, p)
        ctx.eq((int(e.id), bytes(e), e.size), (id, full, len(full)), "event %d" % id)
        for f in got:
            ctx.eq(e == f, e is f, "event %d against %d" % (e.id, f.id))
        ctx.state(id)
    ctx.trace()


def run_base(ctx):
    """The size rules hold for the structured kinds as well: 192 and above carry a prefix."""
    g = Gen(3)
    for id in sorted(spec.FULL):
        if id == 237:
            p = struct.pack("<dd", 40000.5, 1.5)
        else:
            p = g.struct(id)
        for extra in (0, 1, 5, 60, 61, 62, 63, 64, 65, 66, 100, 127, 128, 129):
            st = flpfmt.State(((199, T("20.8.4", "ascii")), (id, p + g.filler(extra))))
            e = list(real.parse_state(ctx, st).events)[1]
            full = flpfmt.enc_event(*st.events[1])
            ctx.eq((bytes(e), e.size), (full, len(full)), "event %d with %d more bytes" % (id, extra))
            ctx.state((id, extra))
    for id, size in ((223, 12), (224, 24), (225, 12), (233, 60), (233, 32), (235, 1)):
        for n in (0, 1, 2, 3, 5, 6, 10, 11, 12, 21, 22, 127, 128, 129, 130):
            if size == 32 and n and n % 15 == 0:
                continue
            p = bytes((k * 5 + 3) & 255 for k in range(n * size)) if id != 235 else bytes(k % 2 for k in range(n))
            if id == 224:
                p = b"".join(p[24 * k:24 * k + 12] + u16(k % 132) + p[24 * k + 14:24 * k + 24] for k in range(n))
            if id in (223, 233):
                p = b"".join(p[size * k:size * k + 4] + b"\0\0\1\0" + struct.pack("<f", k) + p[size * k + 12:size * k + min(size, 24)] + (struct.pack("<ff", 1, k) + p[size * k + 32:size * k + size] if id == 233 else b"") for k in range(n))
            st = flpfmt.State(((199, T("20.8.4", "ascii")), (id, p)))
            e = list(real.parse_state(ctx, st).events)[1]
            full = flpfmt.enc_event(id, p)
            ctx.eq((bytes(e), e.size), (full, len(full)), "event %d of %d records of %d bytes" % (id, n, size))
            ctx.state((id, n))
    ctx.trace()


def universe(tier):
    """Descriptions of events: (class name, id, value key, payload)."""
    out = []
    for name in FIXED:
        a, b = FIXED[name][1]
        for id in (a, a + 1, b):
            for v, raw in VALUES[name][::max(1, len(VALUES[name]) // (4 if tier == "quick" else 12))]:
                out.append((name, id, v, raw))
    for name, enc in TEXTS.items():
        for id in (192, 207, 231):
            for s in ("", "a", "A", "ab", "a "):
                out.append((name, id, s, T(s, enc)))
    for id in (192, 208, 231, 255):
        for d in (b"", b"a\0", b"a", b"\0"):
            out.append(("UnknownDataEvent", id, d, d))
    return out


def run_equal(ctx, part, tier):
    us = universe(tier)
    evs = [make(n, i, raw) for n, i, v, raw in us]
    for k in range(part, len(us), 8):
        n, id, v, raw = us[k]
        e = evs[k]
        for (n2, id2, v2, raw2), f in zip(us, evs):
            want = id == id2 and e.value == f.value and type(v) is not None
            if id == id2 and n == n2:
                want = v == v2
            ctx.step(2)
            if (e == f) is not want or (e != f) is want:
                ctx.fail("%s(%d) of %r %s %s(%d) of %r" % (n, id, v, "equals" if e == f else "differs from", n2, id2, v2))
        for o in (None, 0, id, raw, "", v, object(), (), [e], real.E.EventTree(), Exception, 1.5):
            ctx.step(2)
            for op in ("==", "!="):
                got = real.outcome_raw(lambda: (e == o) if op == "==" else (e != o))
                if not isinstance(got, Raises) or "TypeError" not in got[1:]:
                    ctx.fail("%s(%d) %s %r gives %r, expected TypeError" % (n, id, op, o, got))
        ctx.state((n, id, raw))
    ctx.trace()


def run_parsed(ctx, sec, j, part):
    """Sizes and equality of the events of whole projects, while they are written to."""
    st = templates.SECTIONS[sec](j)
    proj = real.parse_state(ctx, st)
    twin = real.parse_bytes(ctx, flpfmt.encode(st), "twin.flp")
    tree = spec.build(st)
    check_events(ctx, proj, twin, st, st, "parsed")
    if ctx.fails:
        return
    for k, (path, node, a, cell) in enumerate(list(spec.writable(tree, False))):
        if k % 4 != part:
            continue
        t = spec.build(st)
        cell = spec.resolve(t, path).attrs[a]
        vals = [v for v in cell.few() if not isinstance(cell.write(v), Raises)]
        v = vals[k % len(vals)]
        new = spec.apply(st, cell.write(v))
        what = "%s.%s = %s" % (real.show(path), a, engine.short(v))
        got = real.outcome(lambda: setattr(real.get(proj, t, path), a, real.convert(v)))
        if got is not None:
            return ctx.fail("%s raises %s" % (what, got[1:]))
        changed = [i for i, (x, y) in enumerate(zip(st.events, new.events)) if x != y]
        ctx.state(flpfmt.encode(new))
        evs, old = list(proj.events), list(twin.events)
        for i in changed:
            full = flpfmt.enc_event(*new.events[i])
            ctx.eq((bytes(evs[i]), evs[i].size), (full, len(full)), "after %s: event %d" % (what, new.events[i][0]))
            diff = new.events[i] != st0(twin, i)
            ctx.eq((evs[i] == old[i], evs[i] != old[i]), (not diff, diff), "after %s: event %d equals the original" % (what, new.events[i][0]))
        st = new
        if ctx.fails:
            return
    ctx.trace()


def st0(twin, i):
    e = list(twin.events)[i]
    b = bytes(e)
    return flpfmt.decode(flpfmt.header(0, 0, 96, len(b)) + b).events[0]


def check_events(ctx, proj, twin, st, st2, what):
    evs, old = list(proj.events), list(twin.events)
    ctx.eq(len(evs), len(st.events), "number of events")
    for i, (e, (id, p)) in enumerate(zip(evs, st.events)):
        full = flpfmt.enc_event(id, p)
        ctx.eq((bytes(e), e.size, int(e.id)), (full, len(full), id), "%s: event %d" % (what, id))
        ctx.eq((e == old[i], e != old[i]), (True, False), "%s: event %d equals itself parsed again" % (what, id))
        ctx.state((id, p))
