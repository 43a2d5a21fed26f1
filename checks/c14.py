"""C14: value conversions are exact inverses."""
import datetime
import math
import struct

from mc import codecs, engine, flpfmt, real, spec, templates, writes
from mc.codecs import Raises, norm
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["colours: one channel at a time on 4 backgrounds (thorough: all pairs of channels); 32-bit stored numbers: every bit, complement, byte lane, documented limit and the dense ranges stated in the bounds",
               "sample start / length are stored in their documented form (0..61440 with 63, or zero); the licensee consists of up to 60 ASCII letters and digits"]
BATCH = 128


def BOUNDS(tier):
    q = tier == "quick"
    return {"tempo": "every thousandth from 10.000 to 522.000 (999.000 for versions < 11), stored in one and in two events",
            "stretch multiplier": "stored -20000..20000, all", "sample start and length": "all 61442 stored forms",
            "stretch time": "0..%d ticks + 32-bit boundaries; written as every beats 0..40 x ticks 0..700 of 6 bars" % (9000 if q else 100000), "track height": "0..%d %%, and every stored thousandth shown rounded" % (1000 if q else 10000),
            "colours": "4 x 256 x 4 backgrounds%s on channels, inserts, patterns, tracks, slots" % ("" if q else " + 6 x 65536"), "reverb": "2 types x 65536 mixes",
            "keys": "132 numbers, 132 names", "licensee": "62 characters x 60 positions", "timestamps": "every day of 2 centuries, every minute of a day",
            "time markers": "positions: every bit, complement, 4096 values around every limit, with and without signature"}


def cases(tier):
    q = tier == "quick"
    for lo in range(10000, 999000, 8192):
        yield ("tempo", lo, min(lo + 8192, 999001))
    ns = list(range(-20000, 20001, 1)) + [-100000, 100000, -1, 0, 1, 19999, -19999, 20000, -32768, 32767]
    for i in range(0, len(ns), BATCH):
        yield ("log2", ns[i:i + BATCH])
    ns = list(range(0, 61441, 1)) + [61440, 61439, 1, 2, 4095, 4096, 4097, 32767, 32768, 256, 255]
    for i in range(0, len(ns), BATCH):
        yield ("lognorm", ns[i:i + BATCH])
    ns = list(range(0, 9000 if q else 100000)) + codecs.ints(4, False, 1)
    for i in range(0, len(ns), BATCH):
        yield ("musical", ns[i:i + BATCH])
    for lo in range(0, 1000 if q else 10000, 100):
        yield ("height", lo)
    for where in ("channel", "insert", "pattern", "track", "slot"):
        for lane in range(4):
            yield ("color", where, lane)
    if not q:
        for a in range(4):
            for b in range(a + 1, 4):
                yield ("colors", a, b)
    for t in (0, 65536):
        for lo in range(0, 65536, 8192):
            yield ("reverb", t, lo)
    yield ("key",)
    for lo in range(0, 62, 4):
        yield ("licensee", lo)
    for y in range(1900, 2100, 10):
        yield ("stamp", y)
    yield ("minutes",)
    for k in range(8):
        yield ("marker", k)
    for bars in (0, 1, 2, 7, 100, 5000):
        yield ("times", bars)
    yield ("types",)


def run(case, ctx):
    ctx.count(case[0])
    globals()["run_" + case[0]](ctx, *case[1:])


def samplers(field):
    """A project with one sampler per stored field value (put at its offset in the parameters)."""
    g = Gen(0, "20.8.4").head(False).groups(1)
    for k, raw in enumerate(field):
        p = g.struct(215)
        for off, r in raw:
            p = p[:off] + r + p[off + len(r):]
        g.channel(k, 0).raw(215, p)
    return g.state()


def back_and_forth(ctx, st, attr_of, wants, what, values=None):
    """Reads all, writes every read value back (nothing may change), then writes them in another order and back."""
    proj = real.parse_state(ctx, st)
    chans = [c for c in proj.channels]
    got = []
    for k, c in enumerate(chans):
        for o, a in attr_of(c):
            v = getattr(o, a)
            w = wants[k]
            ctx.step()
            ctx.state((what, a, repr(w)))
            if not real.same(norm(v), norm(w)):
                return ctx.fail("%s: %s reads %r, expected %r" % (what, a, v, w))
            got.append(v)
    ctx.trace()
    for k, c in enumerate(chans):
        for o, a in attr_of(c):
            setattr(o, a, getattr(o, a))
            ctx.step()
    if not real.check_saved(ctx, proj, st, what + ": values written back"):
        return
    # through another value and back
    for k, c in enumerate(chans):
        for o, a in attr_of(c):
            v = getattr(o, a)
            setattr(o, a, got[(k * 7 + 3) % len(got)])
            setattr(o, a, v)
            ctx.step(2)
            if not real.same(norm(getattr(o, a)), norm(v)):
                return ctx.fail("%s: %s = %r reads back %r" % (what, a, v, getattr(o, a)))
    real.check_saved(ctx, proj, st, what + ": changed and changed back")


def run_log2(ctx, ns):
    st = samplers([[(104, struct.pack("<i", n))] for n in ns])
    back_and_forth(ctx, st, lambda c: [(c.stretching, "multiplier")], [2.0 ** (n / 10000) for n in ns], "stretch multiplier %d.." % ns[0])


def run_lognorm(ctx, ns):
    raws = [struct.pack("<HH", n, 63) for n in ns] + [b"\0\0\0\0"]
    wants = [2 ** (n / 4096) / 32768 for n in ns] + [0.0]
    st = samplers([[(133, r), (141, r)] for r in raws])
    back_and_forth(ctx, st, lambda c: [(c.fx, "start"), (c.fx, "length")], wants, "sample start/length %d.." % ns[0])


def run_musical(ctx, ns):
    st = samplers([[(96, u32(n))] for n in ns])
    back_and_forth(ctx, st, lambda c: [(c.stretching, "time")], [(n // 768, n % 768 // 48, n % 48 * 5) for n in ns], "stretch time %d.." % ns[0])


def run_times(ctx, bars):
    """Every way to name a time: beats and ticks may go beyond a bar / a beat."""
    st = samplers([[(96, u32(0))]])
    proj = real.parse_state(ctx, st)
    s = next(iter(proj.channels)).stretching
    k = next(k for k, (i, _) in enumerate(st.events) if i == 215)
    e = list(proj.events)[k]
    MT = real.PT.MusicalTime
    ctx.trace()
    for beats in range(41):
        for ticks in range(0, 705, 5):
            n = bars * 768 + beats * 48 + ticks // 5
            s.time = MT(bars, beats, ticks)
            got = bytes(e)
            ctx.step(2)
            ctx.state((bars, beats, ticks))
            if got != flpfmt.enc_event(215, put(st.events[k][1], 96, u32(n))):
                return ctx.fail("stretch time %s is not stored as %d" % ((bars, beats, ticks), n))
            b = tuple(s.time)
            if b[0] * 768 + b[1] * 48 + b[2] / 5 != n:
                return ctx.fail("stretch time %s reads back %s" % ((bars, beats, ticks), b))


def put(p, off, b):
    return p[:off] + b + p[off + len(b):]


def run_tempo(ctx, lo, hi):
    for version, top, evs in (("20.8.4", 522000, ((156, u32(120000)),)), ("9.0.0", 999000, ((66, u16(120)), (93, u16(0)))),
                              ("12.0.0", 522000, ((156, u32(120000)), (66, u16(120)), (93, u16(0))))):
        st = flpfmt.State(((199, T(version, "ascii")),) + evs)
        proj = real.parse_state(ctx, st)
        E = {int(e.id): e for e in proj.events}
        for m in range(lo, min(hi, top + 1)):
            ctx.step(2)
            for i, e in E.items():      # decode
                if i == 156:
                    e.value = m
                elif i == 66:
                    e.value = m // 1000
                elif i == 93:
                    e.value = m % 1000
            v = proj.tempo
            if not isinstance(v, (int, float)) or abs(v - m / 1000) > 1e-9:
                return ctx.fail("tempo stored as %d reads %r (%s)" % (m, v, version))
            for way, x in (("written back", v), ("written", m / 1000)) + ((("written as an integer", m // 1000),) if m % 1000 == 0 else ()):
                for i, e in E.items():
                    if i in (156, 66, 93):
                        e.value = 7
                proj.tempo = x
                for i, want in ((156, m), (66, m // 1000), (93, m % 1000)):
                    if i in E and E[i].value != want:
                        return ctx.fail("tempo %r %s: event %d holds %r, expected %d (%s)" % (x, way, i, E[i].value, want, version))
        ctx.state(("tempo", version, lo))
        ctx.trace()
        last = min(hi, top + 1) - 1
        if last >= lo:
            want = flpfmt.State(((199, T(version, "ascii")),) + tuple(
                (i, u32(last) if i == 156 else u16(last // 1000) if i == 66 else u16(last % 1000)) for i, _ in evs))
            real.check_saved(ctx, proj, want, "tempo %d" % last)
            ctx.eq(norm(real.parse_bytes(ctx, real.save_bytes(ctx, proj)).tempo), norm(last / 1000), "tempo after reload")


def run_height(ctx, lo):
    hs = [n / 100 for n in range(lo, lo + 100)]
    raws = [struct.pack("<f", h) for h in hs] + [struct.pack("<f", (lo * 10 + k) / 1000) for k in range(1, 1000, 7)]
    g = Gen(0, "20.8.4").head(False).groups(1)
    g.raw(99, u16(0))
    p = g.struct(238)
    for r in raws:
        g.raw(238, p[:13] + r + p[17:])
    st = g.raw(100, u16(0)).state()
    proj = real.parse_state(ctx, st)
    tracks = [t for t in proj.arrangements[0].tracks]
    for t, r in zip(tracks, raws):
        ctx.step()
        ctx.state(("height", r))
        x = struct.unpack("<f", r)[0] * 100
        ok = {"%d%%" % round(x)} if abs(x - math.floor(x) - 0.5) > 1e-3 else {"%d%%" % math.floor(x), "%d%%" % math.ceil(x)}
        if t.height not in ok:
            return ctx.fail("track height %r reads %r" % (x, t.height))
    for t in tracks[:len(hs)]:
        t.height = t.height
        ctx.step()
    real.check_saved(ctx, proj, st, "heights written back")
    for t, h in zip(tracks, hs):
        t.height = "1%"
        t.height = "%d%%" % round(h * 100)
        ctx.eq(t.height, "%d%%" % round(h * 100), "height")
    real.check_saved(ctx, proj, st, "heights changed and changed back")
    ctx.trace()


BACK = ((0, 0, 0, 0), (255, 255, 255, 255), (7, 90, 171, 254), (128, 1, 200, 33))


def run_color(ctx, where, lane):
    vals = []
    for b in BACK:
        for x in range(256):
            v = list(b)
            v[lane] = x
            vals.append(bytes(v))
    g = Gen(0, "20.8.4").head(False).groups(1)
    if where == "channel":
        for k, v in enumerate(vals):
            g.channel(k, 0).raw(128, v)
        get = lambda p: [c for c in p.channels]
    elif where == "pattern":
        for k, v in enumerate(vals):
            g.raw(65, u16(k + 1)).raw(150, v)
        get = lambda p: [c for c in p.patterns]
    elif where == "insert":
        vals = vals[::9]
        for v in vals:
            g.raw(149, v).st(236).s(147)
        get = lambda p: [c for c in p.mixer]
    elif where == "slot":
        g.st(236)
        for k, v in enumerate(vals):
            g.raw(128, v).raw(98, u16(k))
        g.s(147)
        get = lambda p: [c for c in next(iter(p.mixer))]
    else:
        g.raw(99, u16(0))
        p0 = g.struct(238)
        for v in vals:
            g.raw(238, p0[:4] + v + p0[8:])
        g.raw(100, u16(0))
        get = lambda p: [c for c in p.arrangements[0].tracks]
    st = g.state()
    proj = real.parse_state(ctx, st)
    objs = get(proj)
    if where == "insert":
        vals, objs = vals[:127], objs[:127]
    R = real.PT.RGBA
    for o, v in zip(objs, vals):
        ctx.step(2)
        ctx.state((where, v))
        c = o.color
        if [round(x * 255, 6) for x in (c.red, c.green, c.blue, c.alpha)] != list(map(float, v)):
            return ctx.fail("%s colour %s reads %r" % (where, v.hex(), c))
        o.color = R(*[x / 255 for x in v])
        if bytes(o.color) != v:
            return ctx.fail("%s colour %s written reads %r" % (where, v.hex(), o.color))
    real.check_saved(ctx, proj, st, "%s colours from fractions" % where)
    for o, v in zip(objs, vals):
        o.color = R.from_bytes(b"\1\2\3\4")
        o.color = R.from_bytes(v)
    real.check_saved(ctx, proj, st, "%s colours changed and changed back" % where)
    for o in objs:
        o.color = o.color
    real.check_saved(ctx, proj, st, "%s colours written back" % where)
    ctx.trace()


def run_colors(ctx, a, b):
    R = real.PT.RGBA
    for x in range(256):
        for y in range(256):
            v = [9, 99, 199, 250]
            v[a], v[b] = x, y
            c = R.from_bytes(bytes(v))
            ctx.step()
            if bytes(c) != bytes(v) or [round(z * 255, 6) for z in c] != list(map(float, v)):
                return ctx.fail("colour %s" % v)
        ctx.state((a, b, x))
    ctx.trace()


def run_reverb(ctx, typ, lo):
    g = Gen(0, "20.8.4").head(False).groups(1).channel(0, 0).raw(139, u32(0))
    st = g.state()
    proj = real.parse_state(ctx, st)
    r = next(iter(proj.channels)).fx.reverb
    e = next(x for x in proj.events if int(x.id) == 139)
    RT = real.MODS["channel"].ReverbType
    A, B = RT.A, RT.B
    want = A if typ == 0 else B
    other = B if typ == 0 else A
    for m in range(lo, lo + 8192):
        ctx.step(3)
        e.value = typ + m
        if r.type != want or r.mix != m:
            return ctx.fail("reverb stored as %d reads %r, %r" % (typ + m, r.type, r.mix))
        r.type = want
        r.mix = m
        if e.value != typ + m:
            return ctx.fail("reverb %s, %d written back is stored as %d" % (want, m, e.value))
        r.type = other
        if r.mix != m or r.type != other or e.value != (65536 - typ) + m:
            return ctx.fail("reverb type %s at mix %d is stored as %d" % (other, m, e.value))
        r.type = want
        r.mix = (m * 7 + 1) % 65536
        if r.type != want or r.mix != (m * 7 + 1) % 65536:
            return ctx.fail("reverb mix %d reads %r, %r" % ((m * 7 + 1) % 65536, r.type, r.mix))
    ctx.state(("reverb", typ, lo))
    ctx.trace()


def run_key(ctx):
    g = Gen(1).head(False)
    st = g.raw(65, u16(1)).raw(224, b"".join(g.note(k) for k in range(132))).state()
    proj = real.parse_state(ctx, st)
    notes = [n for n in next(iter(proj.patterns)).notes]
    ctx.eq([n.key for n in notes], [spec.key_name(k) for k in range(132)], "keys")
    for shift in range(132):
        for k, n in enumerate(notes):
            t = (k + shift) % 132
            n.key = t if shift % 2 else spec.key_name(t)
            ctx.step()
            if n.key != spec.key_name(t):
                return ctx.fail("key %d reads %r" % (t, n.key))
        ctx.state(("key", shift))
    for k, n in enumerate(notes):
        n.key = spec.key_name(k)
    real.check_saved(ctx, proj, st, "keys written back")
    ctx.trace()


CHARS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def run_licensee(ctx, lo):
    for enc, version in (("utf-16-le", "20.8.4"), ("ascii", "9.0.0")):
        proj = real.parse_state(ctx, flpfmt.State(((199, T(version, "ascii")), (200, T("", enc)))))
        e = list(proj.events)[1]
        for ch in CHARS[lo:lo + 4]:
            for other in ("a", "Z", "5", ch):
                for n in list(range(1, 61)):
                    s = other * (n - 1) + ch
                    stored = spec.licensee_store(s)
                    e.value = stored
                    ctx.step(3)
                    ctx.state((s, version))
                    if proj.licensee != s:
                        return ctx.fail("licensee stored as %r reads %r, expected %r" % (stored, proj.licensee, s))
                    e.value = ""
                    proj.licensee = s
                    if e.value != stored or proj.licensee != s:
                        return ctx.fail("licensee %r is stored as %r, expected %r" % (s, e.value, stored))
            real.check_saved(ctx, proj, flpfmt.State(((199, T(version, "ascii")), (200, T(stored, enc)))), "licensee")
    ctx.trace()


def stamps(ctx, values):
    """[(days, spent, datetime, timedelta)]"""
    for a, b, want, spent in values:
        st = flpfmt.State(((199, T("20.8.4", "ascii")), (237, struct.pack("<dd", a, b))))
        proj = real.parse_state(ctx, st)
        ctx.step(2)
        ctx.state((a, b))
        if abs(proj.created_on - want) > datetime.timedelta(milliseconds=2):
            return ctx.fail("creation date %r reads %s, expected %s" % (a, proj.created_on, want))
        if abs(proj.time_spent - spent) > datetime.timedelta(milliseconds=2):
            return ctx.fail("time spent %r reads %s, expected %s" % (b, proj.time_spent, spent))
        real.check_saved(ctx, proj, st, "timestamp")
    ctx.trace()


def run_stamp(ctx, year):
    base = datetime.date(1899, 12, 30).toordinal()
    out = []
    for d in range(datetime.date(year, 1, 1).toordinal(), datetime.date(year + 10, 1, 1).toordinal()):
        frac = (d % 96) / 96
        out.append((d - base + frac, (d - base) / 64, datetime.datetime.fromordinal(d) + datetime.timedelta(minutes=15 * (d % 96)),
                    datetime.timedelta(minutes=22.5 * (d - base))))
    stamps(ctx, out)


def run_minutes(ctx):
    base = datetime.date(1899, 12, 30).toordinal()
    d = datetime.date(2022, 11, 5).toordinal()
    stamps(ctx, [(d - base + m / 1440, m / 1440, datetime.datetime.fromordinal(d) + datetime.timedelta(minutes=m), datetime.timedelta(minutes=m))
                 for m in range(1440)])


def run_marker(ctx, part):
    S = 1 << 27
    vals = set(v % S for v in codecs.ints(4, False, 1)) | set(range(part * 4096, part * 4096 + 4096)) | set(range(S - 4096, S))
    vals |= {(1 << k) - 1 for k in range(27)} | {1 << k for k in range(27)}
    vals = sorted(v for v in vals if v % 8 == part or v >= S - 64 or v < 64)
    for n in range(0, len(vals), 200):
        chunk = vals[n:n + 200]
        g = Gen(0, "20.8.4").head(False).groups(1).raw(99, u16(0))
        for v in chunk:
            g.raw(148, u32(v)).raw(148, u32(v + S))
        st = g.raw(100, u16(0)).state()
        proj = real.parse_state(ctx, st)
        ms = [m for m in proj.arrangements[0].timemarkers]
        got = [(m.position, m.type.name) for m in ms]
        want = [x for v in chunk for x in ((v, "Marker"), (v, "Signature"))]
        ctx.step(len(got))
        ctx.state(("marker", chunk[0]))
        if got != want:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), -1)
            return ctx.fail("time marker %d reads %s, expected %s" % (k, got[k], want[k]))
    ctx.trace()


def run_types(ctx):
    """The conversions of the value types themselves."""
    MT = real.PT.MusicalTime
    for t in ((0, 0, 0), (1, 2, 3), (5, 15, 235)):
        m = MT(*t)
        ctx.eq((m.bars, m.beats, m.ticks), t, "MusicalTime")
        ctx.state(t)
    R = real.PT.RGBA
    for v in range(256):
        c = R.from_bytes(bytes((v, 255 - v, v // 2, 255)))
        ctx.eq(bytes(c), bytes((v, 255 - v, v // 2, 255)), "RGBA")
        ctx.state(v)
    ctx.trace()
