"""C15: mixer parameters reach the right insert, slot and band."""
import itertools

from mc import engine, flpfmt, real, spec, templates, writes
from mc.codecs import Raises
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["at most one record per address and kind", "a slot's address is its position in the insert"]
OWN = (192, 193, 194, 208, 209, 210, 216, 217, 218, 224, 225, 226)
UNKNOWN = (2, 31, 63, 100 + 70, 191, 195, 207, 211, 227, 255)


def BOUNDS(tier):
    return {"single records": "every kind (2 slot, 12 insert, 4 send, 10 unknown) x inserts 0..5 x slots 0..11 x 3 upper-bit patterns, 4 inserts of 3 slots",
            "complete tables": "127 inserts x 10 slots x all kinds, %d record orders" % (2 if tier == "quick" else 6), "addresses": "all 128 x 64 addresses x 2 slot kinds at once, insert kinds at moving low bits, %d variants x 2 orders" % (4 if tier == "quick" else 64), "every insert": "every insert 0..126 x every kind written in the complete table",
            "subsets": "all %d subsets of records of 2 inserts" % (512 if tier == "quick" else 4096), "orders": "all orders of 5 records of one insert",
            "routes": "all routing flags x send subsets for up to 4 sends", "histories": "all sequences of %d writes over 10 attributes" % (2 if tier == "quick" else 3)}


def cases(tier):
    q = tier == "quick"
    for rid in (0, 1) + OWN + (64, 65, 66, 67) + UNKNOWN:
        for ins in range(6):
            yield ("single", rid, ins)
    for order in range(2 if q else 6):
        for lo in range(0, 127, 16):
            yield ("full", order, lo)
    for v in range(4 if q else 64):
        for back in (False, True):
            yield ("addresses", v, back)
    n = 9 if q else 12
    for hi in range(1 << (n - 5)):
        yield ("subset", n, hi)
    for a in range(5):
        yield ("order", a)
    for n in range(5):
        yield ("routes", n)
    for a in range(10):
        yield ("history", a, 2 if q else 3)
    for k in range(8):
        yield ("values", k)
    yield ("place",)


def run(case, ctx):
    ctx.count(case[0])
    globals()["run_" + case[0]](ctx, *case[1:])


def rec(addr, rid, msg, n=0):
    return bytes(((n * 5) & 255, 1, (n >> 3) & 255, 0, rid, 31)) + u16(addr) + (msg & 0xFFFFFFFF).to_bytes(4, "little")


def mixer(records, inserts=4, slots=3, routes=4, at=1, version="20.8.4"):
    g = Gen(0, version).head(False)
    if at == 0:
        g.raw(225, records)
    for i in range(inserts):
        g.st(236)
        for s in range(slots):
            g.raw(98, u16(s))
        g.raw(235, bytes([1] * routes)).s(147)
    if at == 1:
        g.raw(225, records)
    return g.state()


def check(ctx, st, label):
    return real.check_project(ctx, st, False, label)


def run_single(ctx, rid, ins):
    for slot in range(12):
        for top in (0, 5, 7):
            st = mixer(rec(top << 13 | ins << 6 | slot, rid, 1000 + rid + ins * 7 + slot))
            check(ctx, st, "record %d of insert %d, slot %d" % (rid, ins, slot))


def all_records():
    out = []
    for i in range(127):
        for s in range(10):
            out += [(i << 6 | s, 0), (i << 6 | s, 1)]
        out += [(i << 6, r) for r in OWN]
        out += [(i << 6, 64 + k) for k in range(3)]
    return out


def run_addresses(ctx, v, back):
    recs = []
    for ins in range(128):
        for slot in range(64):
            top = (ins + slot + v) % 8 << 13
            recs += [(top | ins << 6 | slot, 0), (top | ins << 6 | slot, 1)]
        for r in OWN + (64, 65, 66):
            recs.append(((ins + r + v) % 8 << 13 | ins << 6 | (r * 7 + ins * 3 + v) % 64, r))
    if back:
        recs.reverse()
    st = mixer(b"".join(rec(a, r, a * 256 + r - 70000, n) for n, (a, r) in enumerate(recs)), 127, 10, 3)
    check(ctx, st, "all addresses, variant %d" % v)


def run_full(ctx, order, lo):
    recs = all_records()
    if order == 1:
        recs = recs[::-1]
    elif order == 2:
        recs = sorted(recs, key=lambda r: (r[1], r[0]))
    elif order > 2:
        m = (0, 0, 0, 7, 11, 13)[order]
        assert len(recs) % m
        recs = [recs[k * m % len(recs)] for k in range(len(recs))]
    st = mixer(b"".join(rec(a, r, a * 256 + r - 70000, n) for n, (a, r) in enumerate(recs)), 127, 10, 3)
    proj = real.parse_state(ctx, st) if lo else check(ctx, st, "complete table in order %d" % order)
    ctx.state((order, lo))
    ctx.trace()
    # write each attribute of 16 inserts; every record must then hold the new value, and only those
    inserts = [i for i in proj.mixer]
    new = {}

    def put(obj, attr, addr, rid):
        v = addr * 3 - rid - 1
        if getattr(obj, attr) != addr * 256 + rid - 70000:
            ctx.fail("insert %d, %s (%d) reads %r" % (addr >> 6, attr, rid, getattr(obj, attr)))
        setattr(obj, attr, v)
        ctx.step(2)
        if getattr(obj, attr) != v:
            ctx.fail("insert %d, %s (%d) = %d reads %r" % (addr >> 6, attr, rid, v, getattr(obj, attr)))
        new[(addr, rid)] = v

    for i in range(lo, min(lo + 16, 127)):
        ins = inserts[i]
        for a, r in (("volume", 192), ("pan", 193), ("stereo_separation", 194)):
            put(ins, a, i << 6, r)
        for b, band in enumerate(("low", "mid", "high")):
            for a, r in (("gain", 208), ("freq", 216), ("reso", 224)):
                put(getattr(ins.eq, band), a, i << 6, r + b)
        for s, slot in enumerate(ins):
            put(slot, "enabled", i << 6 | s, 0)
            put(slot, "mix", i << 6 | s, 1)
        if len(ctx.fails) > 5:
            return
    k = next(k for k, (i, _) in enumerate(st.events) if i == 225)
    p = b"".join(rec(a, r, new.get((a, r), a * 256 + r - 70000), n) for n, (a, r) in enumerate(recs))
    real.check_saved(ctx, proj, st.with_event(k, p), "inserts %d.. written in order %d" % (lo, order))


ITEMS = ((0, 192), (64, 192), (64, 193), (64 | 1, 0), (64 | 1, 1), (64, 0), (64, 209), (64, 218), (0, 224), (64, 194), (64, 64), (1, 1))


def subset_state(n, bits):
    return mixer(b"".join(rec(a, r, a * 1000 + r, k) for k, (a, r) in enumerate(ITEMS[:n]) if bits >> k & 1), 2, 2, 2)


def run_subset(ctx, n, hi):
    for low in range(32):
        st = subset_state(n, hi << 5 | low)
        proj = check(ctx, st, "records %s" % bin(hi << 5 | low))
        if low % 4:
            continue
        # writes: a present record changes, an absent one is refused
        tree = spec.build(st)
        for path, node in list(tree.walk()):
            for attr, cell in node.attrs.items():
                if node.cls in ("Insert", "Slot", "InsertEQBand") and attr in ("volume", "pan", "stereo_separation", "gain", "freq", "reso", "enabled", "mix") \
                        and not (node.cls == "Insert" and attr == "enabled"):
                    st, tree = writes.step(ctx, proj, st, tree, path, attr, len(path) * 11 + 5)
        if len(ctx.fails) > 5:
            return


def run_order(ctx, a):
    base = [(64, 192), (64, 208), (64 | 2, 1), (64 | 2, 0), (64, 226)]
    for perm in itertools.permutations([k for k in range(5) if k != a]):
        recs = [base[k] for k in (a,) + perm]
        check(ctx, mixer(b"".join(rec(x, r, x + r, k) for k, (x, r) in enumerate(recs))), "order %s" % (recs,))


def run_routes(ctx, n):
    for flags in itertools.product((0, 1), repeat=n):
        for sends in range(16):
            for own in (0, 1):
                recs = b"".join(rec(own << 6, 64 + k, 500 + k, k) for k in range(4) if sends >> k & 1)
                g = Gen(0, "20.8.4").head(False)
                for i in range(2):
                    g.st(236).raw(235, bytes(flags)).s(147)
                check(ctx, g.raw(225, recs).state(), "routes %s, sends %s of insert %d" % (flags, bin(sends), own))


def targets(tree):
    I = lambda i: (("s", "mixer"), ("l", "inserts", i))
    S = lambda i, s: I(i) + (("l", "slots", s),)
    B = lambda i, b: I(i) + (("s", "eq"), ("s", b))
    return [(I(0), "volume"), (I(1), "volume"), (I(1), "pan"), (I(1), "stereo_separation"), (B(1, "low"), "gain"), (B(1, "high"), "gain"),
            (B(0, "mid"), "freq"), (S(1, 0), "mix"), (S(1, 1), "mix"), (S(0, 1), "enabled")]


def run_history(ctx, first, depth):
    g = Gen(3, "20.8.4").head(False)
    for i in range(2):
        g.insert_head().slot(0).slot(1).insert_tail(3)
    st0 = g.raw(225, g.params(2, 2, 3, 5)).state()
    for n in range(depth):
        for rest in itertools.product(range(10), repeat=n):
            st = st0
            proj = real.parse_state(ctx, st)
            tree = spec.build(st)
            for k, t in enumerate((first,) + rest):
                path, attr = targets(tree)[t]
                st, tree = writes.step(ctx, proj, st, tree, path, attr, -100 * k - t, full=True)
            ctx.trace()
            if ctx.fails:
                return ctx.fail("history %s" % ((first,) + rest,))


def run_values(ctx, part):
    from mc.codecs import ints
    g = Gen(3, "20.8.4").head(False)
    for i in range(2):
        g.insert_head().slot(0).slot(1).insert_tail(3)
    st = g.raw(225, g.params(2, 2, 3)).state()
    proj = real.parse_state(ctx, st)
    tree = spec.build(st)
    vals = ints(4, True, 1)
    for k, v in enumerate(vals):
        if k % 8 != part:
            continue
        path, attr = targets(tree)[(k // 8) % 10]
        st, tree = writes.step(ctx, proj, st, tree, path, attr, v)
    ctx.trace()


def run_place(ctx):
    """The table before, after or not in the file; inserts without slots; more records than inserts."""
    for at in (0, 1, 2):
        for inserts in range(0, 4):
            for slots in range(0, 3):
                recs = b"".join(rec(i << 6 | s, r, i * 100 + s * 10 + r, i) for i in range(3) for s in range(3) for r in (0, 1)) + \
                       b"".join(rec(i << 6, r, i * 100 + r, i) for i in range(3) for r in OWN)
                check(ctx, mixer(recs, inserts, slots, 2, at), "table %d, %d inserts, %d slots" % (at, inserts, slots))
    check(ctx, mixer(b"", 2, 2), "empty table")
