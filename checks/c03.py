"""C03: damaged files are refused, never half-read."""
import struct

from mc import flpfmt, real, spec, templates
from mc.codecs import Raises
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "fault_enumeration"
RULE = ("one fault per file (a header byte / field value, a truncation, a cut last event with the size patched, text before "
        "the version), enumerated exhaustively; non-trivial = distinct faulty file; counted by content hash")
ASSUMPTIONS = ["which files are valid is decided by mc/flpfmt.py and the documented lists of formats and PPQs"]
HC = "HeaderCorrupted"


def BOUNDS(tier):
    return {"formats": 65536, "ppqs": 65536, "channel counts": "64 edges" if tier == "quick" else 65536,
            "header bytes": "22 positions x 256 values", "truncations": "every prefix of every sample file",
            "event bytes": "every byte of every sample file's events set to %s values" % ("8-12" if tier == "quick" else "all 256"),
            "last event": "every cut of every event kind, size patched"}


def cases(tier):
    for hi in range(256):
        yield ("fmt", hi)
        yield ("ppq", hi)
        if tier == "thorough":
            yield ("chan", hi)
    yield ("chan", -1)
    for pos in range(22):
        yield ("hbyte", pos)
    yield ("size",)
    for k in range(len(samples())):
        yield ("prefix", k)
        for part in range(8):
            yield ("body", k, part)
    for i in range(256):
        yield ("cut", i)
    for i in range(192, 256):
        yield ("noversion", i)
    yield ("garbage",)
    if tier == "thorough":
        for name in templates.SECTIONS:
            yield ("secprefix", name)


def samples():
    g = Gen(3)
    return [flpfmt.encode(templates.SECTIONS["pattern"](1)), flpfmt.encode(templates.SECTIONS["oldproject"](1)),
            flpfmt.encode(templates.SECTIONS["mixer"](1)), flpfmt.encode(flpfmt.State(((199, T("20.8.4", "ascii")), (250, bytes(300)))))]


BODY = flpfmt.enc_events(((199, T("20.8.4", "ascii")), (203, T("hi")), (156, u32(130000))))


def attempt(ctx, buf):
    """-> project, or Raises(...)"""
    ctx.state(buf)
    ctx.step()
    return real.outcome_raw(lambda: real.parse_bytes(ctx, buf))


def refuse(ctx, buf, what, exc=None):
    got = attempt(ctx, buf)
    if not isinstance(got, Raises):
        ctx.fail("%s: accepted" % what)
    elif exc and exc not in got:
        ctx.fail("%s: raised %s, expected %s" % (what, got[1], exc))


def accept(ctx, buf, what, fmt, ch, ppq, n):
    got = attempt(ctx, buf)
    if isinstance(got, Raises):
        return ctx.fail("%s: refused with %s %s" % (what, got[1], got[-1]))
    ctx.eq((int(got.format), got.channel_count, got.ppq, len(list(got.events))), (fmt, ch, ppq, n), what)


def hdr(magic=b"FLhd", hs=6, fmt=0, ch=1, ppq=96, dm=b"FLdt", size=None, body=BODY):
    return flpfmt.header(fmt, ch, ppq, len(body) if size is None else size, magic, hs, dm) + body


def run(case, ctx):
    kind = case[0]
    ctx.count(kind)
    if kind == "fmt":
        for lo in range(256):
            v = struct.unpack("<h", bytes((lo, case[1])))[0]
            if v in flpfmt.FORMATS:
                accept(ctx, hdr(fmt=v), "format %d" % v, v, 1, 96, 3)
            else:
                refuse(ctx, hdr(fmt=v), "format %d" % v, HC)
    elif kind == "ppq":
        for lo in range(256):
            v = case[1] << 8 | lo
            if v in flpfmt.PPQS:
                accept(ctx, hdr(ppq=v), "PPQ %d" % v, 0, 1, v, 3)
            else:
                refuse(ctx, hdr(ppq=v), "PPQ %d" % v, HC)
    elif kind == "chan":
        vs = spec.ints(2, False, 1) if False else ([case[1] << 8 | lo for lo in range(256)] if case[1] >= 0 else spec.U(0, 2).vals(1))
        for v in vs:
            accept(ctx, hdr(ch=v), "channel count %d" % v, 0, v, 96, 3)
    elif kind == "hbyte":
        good = hdr()
        pos = case[1]
        for b in range(256):
            buf = bytearray(good)
            if buf[pos] == b:
                continue
            buf[pos] = b
            what = "header byte %d = %d" % (pos, b)
            f, c, q = struct.unpack_from("<hHH", buf, 8)
            if pos in (10, 11) or (pos in (8, 9) and f in flpfmt.FORMATS) or (pos in (12, 13) and q in flpfmt.PPQS):
                accept(ctx, bytes(buf), what, f, c, q, 3)
            else:
                refuse(ctx, bytes(buf), what, HC)
    elif kind == "size":
        n = len(BODY)
        for s in sorted({x for d in range(-n, 300) for x in (n + d,)} | {(1 << k) for k in range(32)} | {(1 << 32) - 1 - k for k in range(8)} |
                        {n + (1 << k) for k in range(8, 32)} | {n + 0x100, n + 0x10000, n + 0x1000000}):
            if s != n:
                refuse(ctx, hdr(size=s), "data size %d of %d" % (s, n), HC)
        for m in range(1, 12):
            refuse(ctx, hdr() + bytes(m), "%d extra bytes" % m, HC)
            refuse(ctx, hdr(size=n) + BODY[:m], "%d extra bytes" % m, HC)
    elif kind == "prefix":
        buf = samples()[case[1]]
        attempt_ok = attempt(ctx, buf)
        if isinstance(attempt_ok, Raises):
            ctx.fail("sample file refused: %s" % (attempt_ok,))
        for n in range(len(buf)):
            refuse(ctx, buf[:n], "cut after %d bytes" % n, HC)
            if 22 < n:
                patched(ctx, buf, n)
    elif kind == "body":
        buf = samples()[case[1]]
        for n in range(22 + case[2], len(buf), 8):
            b = buf[n]
            vals = range(256) if ctx.lvl > 1 else {0, 1, 2, 0x7F, 0x80, 0x81, 0xFF, b ^ 1, b ^ 0x80, (b + 1) & 255, (b - 1) & 255, b ^ 64}
            for v in sorted(set(vals) - {b}):
                spoilt(ctx, buf[:n] + bytes((v,)) + buf[n + 1:], "byte %d = %d" % (n, v))
    elif kind == "secprefix":
        for j in range(3):
            buf = flpfmt.encode(templates.SECTIONS[case[1]](j))
            for n in range(len(buf)):
                refuse(ctx, buf[:n], "cut after %d bytes" % n, HC)
                if 22 < n:
                    patched(ctx, buf, n)
    elif kind == "cut":
        i = case[1]
        if i < 192:
            pays = [Gen(i).filler(1 if i < 64 else 2 if i < 128 else 4)]
            if i in (20,) or spec.kind_of(i) == "bool":
                pays = [b"\1"]
        elif spec.kind_of(i) == "text":
            pays = [T("hello"), T("q" * 100)]
        elif i == 199:
            pays = [T("20.8.4", "ascii")]
        elif i in spec.LAYOUT:
            pays = [Gen(i).struct(i)]
        elif i == 234:
            pays = [Gen(i).automation(2)]
        elif i in (224, 223, 225, 233, 237, 235):
            pays = [next(p for x, p in templates.rich(0).events if x == i)]
        else:
            pays = [Gen(i).filler(n) for n in (1, 5, 130, 20000)]
        head = flpfmt.enc_event(199, T("20.8.4", "ascii")) + flpfmt.enc_event(10, u8(1))
        for p in pays:
            ev = flpfmt.enc_event(i, p)
            full = head + ev
            got = attempt(ctx, hdr(body=full))
            if isinstance(got, Raises):
                ctx.fail("event %d of %d bytes refused: %s" % (i, len(p), got))
            for n in list(range(1, min(len(ev), 400))) + [len(ev) - k for k in range(1, 4) if len(ev) > 400]:
                refuse(ctx, hdr(body=head + ev[:n]), "last event %d cut to %d of %d bytes" % (i, n, len(ev)))
    elif kind == "noversion":
        i = case[1]
        k = spec.kind_of(i)
        for p in (T("abc"), b"", b"\0", T("abc", "ascii")):
            if k == "text":
                for pre in (b"", flpfmt.enc_event(10, u8(1)), flpfmt.enc_event(250, b"zz")):
                    refuse(ctx, hdr(body=pre + flpfmt.enc_event(i, p) + BODY), "text id %d before the version" % i, "VersionNotDetected")
                    refuse(ctx, hdr(body=pre + flpfmt.enc_event(i, p)), "text id %d without a version" % i, "VersionNotDetected")
    elif kind == "garbage":
        for n in range(0, 60):
            refuse(ctx, bytes(n), "%d zero bytes" % n, HC)
            refuse(ctx, b"\xff" * n, "%d ff bytes" % n, HC)
            refuse(ctx, (b"RIFF" + bytes(range(56)))[:n], "not an FLP (%d bytes)" % n, HC)


def patched(ctx, buf, n):
    """buf cut after n bytes with a matching size: the events must be exactly those complete, or an error."""
    body = buf[22:n]
    cut = buf[:18] + struct.pack("<I", len(body)) + body
    try:
        want = flpfmt.decode(cut)
    except Exception:
        want = None
    got = attempt(ctx, cut)
    if want is None:
        if not isinstance(got, Raises):
            ctx.fail("cut after %d bytes, size patched: accepted though the last event is incomplete" % n)
    elif isinstance(got, Raises):
        ctx.fail("cut at an event boundary (%d bytes), size patched: refused with %s" % (n, got[1]))
    else:
        ctx.eq([int(e.id) for e in got.events], [i for i, _ in want.events], "cut at %d: event ids" % n)
        ctx.eq([bytes(e) for e in got.events], [flpfmt.enc_event(*e) for e in want.events], "cut at %d: events" % n)


def spoilt(ctx, buf, what):
    """A file with one wrong byte among its events: an error, or every event the bytes declare."""
    try:
        want = flpfmt.decode(buf)
    except Exception:
        want = None
    got = attempt(ctx, buf)
    if want is None:
        if not isinstance(got, Raises):
            ctx.fail("%s: accepted though the last event is incomplete" % what)
    elif not isinstance(got, Raises):
        evs = list(got.events)
        if [int(e.id) for e in evs] != [i for i, _ in want.events]:
            return ctx.fail("%s: %d events, the file declares %d" % (what, len(evs), len(want.events)))
        for e, (i, p) in zip(evs, want.events):
            if i < 192 or spec.kind_of(i) == "blob":
                if bytes(e)[-len(p):] != p and p and spec.kind_of(i) != "bool":
                    return ctx.fail("%s: event %d holds %s" % (what, i, bytes(e)[:20].hex()))
