"""C01: an untouched project saves back byte for byte."""
import itertools

from mc import flpfmt, real, spec, templates
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = [
    "mc/flpfmt.py defines the container format independently of pyflp",
    "well-formed input: minimal length prefixes; truth values inside structures are 0/1, floats are not NaN; text decodes in the encoding of the file's version; plugin data of natively supported plugins, VST records, automation and timestamps are complete",
]
PAYLOAD_LENS = (0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385)
TEXT_IDS = [i for i in range(192, 256) if spec.kind_of(i) == "text"]
BLOB_IDS = [i for i in range(192, 256) if spec.kind_of(i) == "blob"]
VERSIONS = ("20.8.4.2576", "11.5.0", "11.4.9", "3.3.0", "21.0.3.3517", "9.0")
ALPHA = "ABCDEFGHIJKLMNOP"


def BOUNDS(tier):
    d = 3 if tier == "quick" else 4
    return {"8-bit payloads": "256 ids<64 x 256 values", "16-bit payloads": "ids 64-127 x " + ("edge values" if tier == "quick" else "65536 values"),
            "event orders": "all sequences up to length %d over 13 event kinds" % d,
            "payload lengths": PAYLOAD_LENS + HUGE, "events in a file": "up to 70302", "structure lengths": "every length from 0 to full + 8 (cut inside a field: neutral content)",
            "headers": "10 formats x 11 PPQs x 9 channel counts"}


def cases(tier):
    lvl = 2 if tier == "thorough" else 1
    for i in range(64):
        yield ("byte", i)
    for i in range(64, 128):
        if lvl == 1:
            yield ("word", i, 0, 0)
        else:
            for hi in range(0, 256, 16):
                yield ("word", i, hi, 16)
    for i in range(128, 192):
        yield ("dword", i)
    for v in VERSIONS:
        yield ("text", v)
    for i in BLOB_IDS:
        yield ("blob", i)
    for i in sorted(spec.LAYOUT):
        yield ("struct", i)
    for i in sorted(spec.LIST_IDS) + [234, 237]:
        yield ("list", i)
    for n in (0, 1, 2):
        yield ("plugins", n)
    for name in templates.SECTIONS:
        for j in range(-6, 24 if lvl == 1 else 700):
            yield ("sec", name, j)
    for j in range(0, 60 if lvl == 1 else 700):
        yield ("rich", j)
        yield ("old", j)
    for f in flpfmt.FORMATS:
        yield ("header", f)
    for n in HUGE:
        yield ("huge", n)
    depth = 3 if lvl == 1 else 4
    for first in range(13):
        for second in range(13):
            yield ("orders", first, second, depth)


HUGE = (65535, 65536, 2097151, 2097152)


def huge(n):
    """Very long events and very many of them."""
    evs = tuple((250, u16(k)) for k in range(300)) + tuple((72, u16(k & 0xFFFF)) for k in range(70000)) if n == 65536 else ()
    return flpfmt.State(HEAD + evs + ((250, bytes(range(256)) * (n // 256) + bytes(n % 256)), (203, T("y" * (n // 2 - 1))), (0, u8(1))))


def check(ctx, st, what):
    raw = flpfmt.encode(st)
    ctx.state(raw)
    ctx.trace()
    try:
        p = real.parse_bytes(ctx, raw)
        out = real.save_bytes(ctx, p)
    except real.engine.Hang:
        raise
    except Exception as e:
        ctx.step(2)
        return ctx.fail("%s: %s: %s" % (what, type(e).__name__, e))
    ctx.step(2)
    if out != raw:
        ctx.fail("%s: %s" % (what, real.diff(raw, out)))


HEAD = ((199, T("20.8.4.2576", "ascii")),)


def many(ctx, evs, what, head=HEAD, batch=64):
    """Checks evs together in files of `batch` events; a disagreement is narrowed down to single events."""
    for k in range(0, len(evs), batch):
        part = tuple(evs[k:k + batch])
        n = len(ctx.fails)
        check(ctx, flpfmt.State(head + part), what)
        if len(ctx.fails) > n:
            del ctx.fails[n:]
            for e in part:
                check(ctx, flpfmt.State(head + (e,)), "%s, event %d = %s" % (what, e[0], e[1][:12].hex()))


def symbols():
    g = Gen(5)
    return [(0, u8(1)), (9, u8(0)), (72, u16(515)), (95, u16(65535)), (128, b"\1\2\3\4"), (156, u32(140000)),
            (203, T("ab")), (201, T("BooBass")), (213, g.native("BooBass")), (212, g.struct(212)), (224, g.notes(1)),
            (250, b"\1\2\3"), (64, u16(7))]


def run(case, ctx):
    kind = case[0]
    ctx.count(kind)
    if kind == "byte":
        many(ctx, [(case[1], u8(v)) for v in range(256)], "1-byte events")
    elif kind == "word":
        vals = spec.U(0, 2).vals(1) if not case[3] else range(case[2] << 8, (case[2] + case[3]) << 8)
        many(ctx, [(case[1], u16(v)) for v in vals], "2-byte events", batch=64 if not case[3] else 1024)
    elif kind == "dword":
        r = spec.SCALAR[spec.kind_of(case[1])].raws(2)
        many(ctx, [(case[1], b) for b in r], "4-byte events", batch=256)
    elif kind == "text":
        enc = spec.text_encoding(case[1])
        texts = ["x" * n for n in PAYLOAD_LENS] + list(spec.Text.SAMPLES) + (list(spec.Text.UNI) if enc != "ascii" else [])
        head = ((199, T(case[1], "ascii")),)
        if enc == "ascii":
            texts += [chr(c) + "z" for c in range(1, 128)]
        else:
            texts += [chr(c) for c in range(1, 0x3000 if ctx.lvl == 2 else 0x200)] + [chr(c) for c in (0xD7FF, 0xE000, 0xFFFD, 0x10FFFF)]
        for i in TEXT_IDS:
            evs = [(i, T(t, enc)) for t in (texts if i in (192, 203, 231) else texts[:44])]
            evs += [(i, t.encode(enc)) for t in ("", "a", "xyz")] + [(i, (t + "\0\0").encode(enc)) for t in ("", "b")]
            many(ctx, evs, "text", head)
    elif kind == "huge":
        check(ctx, huge(case[1]), "event of %d bytes" % case[1])
    elif kind == "blob":
        g = Gen(case[1])
        many(ctx, [(case[1], g.filler(n)) for n in PAYLOAD_LENS], "data")
    elif kind == "struct":
        for j in range(8):
            g = Gen(j)
            bs = spec.boundaries(case[1])
            full = g.struct(case[1])
            ext = full + g.filler(8)
            # cut short at field boundaries, or (with neutral content) anywhere; longer than known by any bytes
            cuts = [(case[1], ext[:n] if n in bs or n > len(full) else bytes(n)) for n in range(len(ext) + 1)]
            many(ctx, cuts + [(case[1], full + bytes(n)) for n in (1, 3, 18, 200)],
                 "structure %d" % case[1])
    elif kind == "list":
        lists(ctx, case[1])
    elif kind == "plugins":
        plugins(ctx, case[1])
    elif kind == "sec":
        check(ctx, templates.SECTIONS[case[1]](case[2]), "section")
    elif kind == "rich":
        check(ctx, templates.rich(case[1]), "rich")
    elif kind == "old":
        check(ctx, templates.old(case[1]), "old")
    elif kind == "header":
        for ppq in flpfmt.PPQS:
            for ch in (0, 1, 2, 127, 128, 255, 256, 32767, 65535):
                check(ctx, flpfmt.State(HEAD, case[1], ch, ppq), "header")
    elif kind == "orders":
        sym = symbols()
        for n in range(0, case[3] - 1):
            for rest in itertools.product(range(len(sym)), repeat=n):
                seq = [sym[k] for k in (case[1], case[2]) + rest]
                check(ctx, flpfmt.State(HEAD + tuple(seq)), "order")
        if case[2] == 0:
            check(ctx, flpfmt.State(HEAD + (sym[case[1]],)), "order")


def lists(ctx, i):
    for j in range(4):
        g = Gen(j)
        evs = []
        if i in (223, 224):
            evs = [(i, g.controllers(n) if i == 223 else g.notes(n)) for n in range(0, 12)]
        elif i == 225:
            evs = [(i, g.params(a, b, c)) for a in (0, 1, 2, 5) for b in (0, 1, 10) for c in (0, 3)]
        elif i == 233:
            evs = [(i, b"".join(g.plitem(499, k, size=s) for k in range(n))) for s in (32, 60) for n in range(0, 12)]
        elif i == 235:
            evs = [(i, bytes((k >> b) & 1 for b in range(n))) for n in range(0, 7) for k in range(1 << n)]
            evs += [(i, bytes(k % 2 for k in range(n))) for n in (100, 127, 128)]
        elif i == 234:
            evs = [(i, g.automation(n, t)) for n in range(6) for t in (0, 1, 48, 112)]
        elif i == 237:
            for j2 in range(6):
                evs.append((i, Gen(j2 + j).fields(bytes(16), [spec.Flt(0, 8), spec.Flt(8, 8)])))
        many(ctx, evs, "list event %d" % i)


def plugins(ctx, which):
    for j in range(12):
        g = Gen(j)
        if which == 0:
            for name, (_, size, big, _t) in spec.NATIVE.items():
                for longer in ((False, True) if big else (False,)):
                    g = Gen(j).head(False)
                    g.plug(name, g.native(name, longer))
                    check(ctx, g.state(), name)
        elif which == 1:
            recs = (1, 2, 30, 31, 32, 50, 51, 52, 53, 54, 55, 56, 57)
            for a in recs:
                for b in recs:
                    g = Gen(j).head(False)
                    g.plug(spec.VST, g.vst((a, b)))
                    check(ctx, g.state(), "VST records %d %d" % (a, b))
            for n in range(0, 30):      # short forms of the MIDI and flags records, at field boundaries
                for rid, cuts in ((1, (0, 4, 8, 12, 13, 20, 24)), (2, (0, 9, 13, 17, 22, 23, 24, 29))):
                    if n in cuts:
                        g = Gen(j).head(False)
                        r = g.vst_record(rid)[12:] + g.filler(8)
                        g.plug(spec.VST, u32(8) + spec.struct.pack("<IQ", rid, n) + r[:n])
                        check(ctx, g.state(), "VST record %d of %d bytes" % (rid, n))
        else:
            for pages in ({}, {0: ""}, {0: "a", 1: "b"}, {3: "x" * 127, -7: "y" * 128}, {0: "\u00e9\u4e2d"}):
                g = Gen(j).head(False)
                g.plug(spec.NOTEBOOK, g.notebook((pages,)))
                check(ctx, g.state(), "notebook")
            for name in ("", "Other", "BooBass2", "fruity wrapper"):
                for n in (0, 1, 40, 200):
                    g = Gen(j).head(False)
                    g.plug(name, g.filler(n))
                    check(ctx, g.state(), "unknown plugin")
