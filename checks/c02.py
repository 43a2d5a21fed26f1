"""C02: the parsed event list mirrors the file."""
import itertools

from mc import flpfmt, real, spec, templates
from mc.codecs import norm
from mc.templates import Gen, T, u8, u16, u32
from checks.c01 import BLOB_IDS, HEAD, HUGE, huge, PAYLOAD_LENS, TEXT_IDS, symbols

LEVEL = "model_checking"
ASSUMPTIONS = ["mc/flpfmt.py and spec.kind_of() define ids, sizes and value kinds independently of pyflp",
               "boolean events hold 0 or 1; floats are not NaN; text decodes in the encoding of the file's version"]
VERS = [(a, b) for a in (1, 9, 10, 11, 12, 20, 24) for b in (0, 1, 4, 5, 6, 9, 10, 12, 50)]


def BOUNDS(tier):
    return {"ids": "0-255", "8-bit values": 256, "16-bit values": "edges and byte lanes" if tier == "quick" else 65536,
            "32-bit values": "every bit, complement, byte lanes", "text and data lengths": PAYLOAD_LENS + HUGE, "events in a file": "up to 70302",
            "short texts": "all texts of up to %d characters over 6 (letter, NUL, space, CR, LF, BOM or DEL), no NUL added" % (3 if tier == "quick" else 4),
            "versions": "%d major.minor pairs x {2,3,4} parts" % len(VERS),
            "positions": "all sequences of length <= %d over 13 event kinds" % (3 if tier == "quick" else 4)}


def cases(tier):
    lvl = 2 if tier == "thorough" else 1
    for n in HUGE:
        yield ("huge", n)
    for i in range(192):
        if lvl == 2 and 64 <= i < 128:
            for hi in range(0, 256, 16):
                yield ("fixed", i, hi)
        else:
            yield ("fixed", i, -1)
    for i in TEXT_IDS:
        for v in ("20.8.4.2576", "11.5.0", "11.4.9", "3.3", "10.0.9"):
            yield ("text", i, v)
    for i in BLOB_IDS + sorted(spec.STRUCT_IDS | spec.LIST_IDS) + [213]:
        yield ("data", i)
    for k in range(len(VERS)):
        yield ("version", k)
    for a in range(13):
        for b in range(13):
            yield ("orders", a, b, 3 if lvl == 1 else 4)
    for j in range(12 if lvl == 1 else 200):
        yield ("rich", j)
        yield ("old", j)


def expect(st):
    """-> [(id, expected value or None when structured)]"""
    out, enc = [], None
    for i, p in st.events:
        if i == 199:
            v = p.decode("ascii").rstrip("\0")
            enc = spec.text_encoding(v)
            out.append((i, v))
            continue
        k = spec.kind_of(i)
        if k == "text":
            out.append((i, p.decode(enc).rstrip("\0")))
        elif k == "blob":
            out.append((i, p))
        elif k in ("struct", "plugin"):
            out.append((i, None))
        else:
            out.append((i, spec.SCALAR[k].dec(p)))
    return out


def check(ctx, st, what):
    raw = flpfmt.encode(st)
    ctx.state(raw)
    ctx.trace()
    p = real.parse_bytes(ctx, raw)
    evs = list(p.events)
    want = expect(st)
    ctx.eq(len(evs), len(want), what + ": number of events")
    ctx.eq(len(p.events), len(want), what + ": len(events)")
    for k, (e, (i, v)) in enumerate(zip(evs, want)):
        ctx.step()
        if int(e.id) != i:
            ctx.fail("%s: event %d has id %d, expected %d" % (what, k, e.id, i))
            return
        b = bytes(e)
        if b != flpfmt.enc_event(*st.events[k]):
            ctx.fail("%s: event %d (id %d) serialises as %s" % (what, k, i, b[:20].hex()))
        if v is None:
            continue
        got = norm(e.value)
        if isinstance(v, bool):
            ok = got is v
        elif isinstance(v, bytes):
            ok = isinstance(got, (bytes, bytearray)) and bytes(got) == v
        else:
            ok = real.same(got, v) and (type(got) is type(v) or not isinstance(v, str))
        if not ok:
            ctx.fail("%s: event %d (id %d, payload %s) has value %s, expected %s" % (
                what, k, i, st.events[k][1][:12].hex(), real.engine.short(got), real.engine.short(v)))


def batches(ctx, evs, what, head=HEAD, n=128):
    for k in range(0, len(evs), n):
        check(ctx, flpfmt.State(head + tuple(evs[k:k + n])), what)


def run(case, ctx):
    kind = case[0]
    ctx.count(kind)
    if kind == "fixed":
        i = case[1]
        c = spec.SCALAR[spec.kind_of(i)]
        if case[2] >= 0:
            rs = [u16(v) for v in range(case[2] << 8, (case[2] + 16) << 8)]
        else:
            rs = c.raws(1)
        batches(ctx, [(i, r) for r in rs], "id %d" % i)
        check(ctx, flpfmt.State(((i, rs[1]),) + HEAD), "before the version")
    elif kind == "text":
        enc = spec.text_encoding(case[2])
        texts = ["x" * n for n in PAYLOAD_LENS] + list(spec.Text.SAMPLES)
        if enc == "ascii":
            texts += [chr(c) for c in range(1, 128)]
        else:
            texts += list(spec.Text.UNI) + [chr(c) + "k" for c in range(1, 0x180 if ctx.lvl == 1 else 0x3000)]
        batches(ctx, [(case[1], T(t, enc)) for t in texts], "text", ((199, T(case[2], "ascii")),))
        # all short texts over an alphabet of troublemakers, with and without the final NUL
        for n in range(0, 4 if ctx.lvl == 1 else 5):
            words = ["".join(w) for w in itertools.product(("a", "\0", " ", "\r", "\n", "\x7f" if enc == "ascii" else "\ufeff"), repeat=n)]
            batches(ctx, [(case[1], w.encode(enc)) for w in words], "short text", ((199, T(case[2], "ascii")),))
    elif kind == "huge":
        check(ctx, huge(case[1]), "event of %d bytes" % case[1])
    elif kind == "data":
        i, g = case[1], Gen(case[1])
        if i in BLOB_IDS or i == 213:
            evs = [(i, g.filler(n)) for n in PAYLOAD_LENS]
        elif i in spec.LAYOUT:
            evs = [(i, g.struct(i)) for _ in range(8)]
        else:
            evs = [e for j in range(3) for e in templates.rich(j).events if e[0] == i]
        batches(ctx, evs, "data")
        check(ctx, flpfmt.State(tuple(evs[:3]) + HEAD), "before the version")
    elif kind == "version":
        a, b = VERS[case[1]]
        for v in ("%d.%d" % (a, b), "%d.%d.0" % (a, b), "%d.%d.9.1234" % (a, b), "%d.%d.3" % (a, b)):
            enc = spec.text_encoding(v)
            for i in (192, 203, 231, 239, 241, 201):
                st = flpfmt.State(((199, T(v, "ascii")), (i, T("Name", enc)), (10, u8(1)), (i, T("", enc))))
                check(ctx, st, "version " + v)
    elif kind == "orders":
        sym = symbols()
        for n in range(0, case[3] - 1):
            for rest in itertools.product(range(len(sym)), repeat=n):
                check(ctx, flpfmt.State(HEAD + tuple(sym[k] for k in (case[1], case[2]) + rest)), "order")
    elif kind == "rich":
        check(ctx, templates.rich(case[1]), "rich")
    elif kind == "old":
        check(ctx, templates.old(case[1]), "old")
