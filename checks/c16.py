"""C16: version-dependent rules switch at the documented versions."""
import itertools

from mc import engine, flpfmt, real, spec, templates
from mc.codecs import Raises
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["how a version without a build compares with the same version with one is only required to be consistent"]
MAJ = (0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 20, 21, 24, 99, 110)
MIN = (0, 3, 4, 5, 6, 8, 9, 10, 50, 99)
PAT = (0, 1, 2, 3, 9, 10, 11)
BLD = (None, 0, 1, 5, 2576, 99999)


def BOUNDS(tier):
    return {"versions": "all %d combinations of %d major x %d minor x %d patch x %d build numbers%s" % (
                len(MAJ) * len(MIN) * len(PAT) * len(BLD), len(MAJ), len(MIN), len(PAT), len(BLD), "" if tier == "quick" else "; all majors 0..30 x minors 0..20 x patches 0..12"),
            "order": "all pairs of %d versions, all triples of 40" % (420 if tier == "quick" else 1260), "assignments": "each version as object, text and tuple, with and without a stored build number, after each other",
            "tempo": "9, 9.999, 10, 10.5, 522, 522.001, 523, 998.5, 999, 999.001, 1000 on every version"}


def cases(tier):
    for a in MAJ:
        for b in MIN:
            yield ("grid", a, b)
    if tier != "quick":
        for a in range(31):
            for b in range(21):
                yield ("dense", a, b)
    vs = order_set(tier)
    for lo in range(0, len(vs), 20):
        yield ("order", lo, tier)
    for k in range(8):
        yield ("triples", k)
    for a in MAJ:
        yield ("assign", a)
    yield ("short",)
    yield ("parsed",)


def run(case, ctx):
    ctx.count(case[0])
    globals()["run_" + case[0]](ctx, *case[1:])


def text(v):
    return ".".join(str(x) for x in v if x is not None)


def rules(v):
    t = v[:3]
    return {"enc": "utf-16-le" if v[:2] >= (11, 5) else "ascii", "top": 999 if (1, 4, 2) <= t < (11, 0, 0) else 522,
            "fine": t >= (3, 4, 0), "tracks": 500 if t >= (12, 9, 1) else 199}


def run_grid(ctx, a, b):
    for p in PAT:
        for bld in BLD:
            one(ctx, (a, b, p, bld))
            if len(ctx.fails) > 5:
                return


def run_dense(ctx, a, b):
    for p in range(13):
        one(ctx, (a, b, p, None))
        one(ctx, (a, b, p, 7))


def one(ctx, v):
    r = rules(v)
    name = "Name %d" % v[0]
    evs = ((199, T(text(v), "ascii")), (159, u32(v[3] or 0)), (194, T(name, r["enc"])), (156, u32(120000)),
           (66, u16(120)), (93, u16(0)), (231, T("grp", r["enc"])), (99, u16(0)), (241, T("arr", r["enc"])), (238, templates_track()), (239, T("trk", r["enc"])), (100, u16(0)))
    st = flpfmt.State(evs)
    raw = flpfmt.encode(st)
    ctx.state(raw)
    ctx.trace()
    proj = real.parse_bytes(ctx, raw)
    what = "FL " + text(v)
    g = proj.version
    ctx.eq((g.major, g.minor, g.patch, g.build), v, what + ": version")
    ctx.eq(str(g), text(v), what + ": version text")
    ctx.eq(proj.title, name, what + ": title")
    ctx.eq([x.name for x in proj.channels.groups], ["grp"], what + ": group name")
    arr = next(iter(proj.arrangements))
    ctx.eq(arr.name, "arr", what + ": arrangement name")
    ctx.eq(next(iter(arr.tracks)).name, "trk", what + ": track name")
    ctx.eq(proj.arrangements.max_tracks, r["tracks"], what + ": max_tracks")
    if v[0] >= 20:
        ctx.eq((proj.mixer.max_inserts, proj.mixer.max_slots), (127, 10), what + ": mixer limits")
    now = 120.0
    for x in (9, 9.999, 9.9999, 10, 10.5, 522, 522.0, 522.001, 523, 998.5, 999, 999.0, 999.001, 1000, 1000.5, -5, 130):
        got = real.outcome(lambda: setattr(proj, "tempo", x))
        ctx.step()
        want = None
        if isinstance(x, float) and not r["fine"]:
            want = ("TypeError",)
        if not 10 <= x <= r["top"]:
            want = (want or ()) + ("ValueError",)
        if want is None:
            if got is not None:
                ctx.fail("%s: tempo %r refused with %s" % (what, x, got[1]))
            else:
                now = x
        elif not real.same(got, Raises(*want)):
            ctx.fail("%s: tempo %r gives %s, expected %s" % (what, x, got, want))
        if abs(proj.tempo - now) > 1e-9:
            ctx.fail("%s: tempo reads %r after %r, expected %r" % (what, proj.tempo, x, now))
    proj.tempo = 120
    proj.title = "changed"
    real.check_saved(ctx, proj, st.with_event(2, T("changed", r["enc"])), what)


_T = []


def templates_track():
    if not _T:
        _T.append(Gen(0).struct(238))
    return _T[0]


def order_set(tier):
    maj, mi, pa, bl = (0, 3, 9, 11, 12, 20, 100), (0, 4, 5, 9, 10), (0, 1, 9, 10), (None, 0, 2576)
    if tier != "quick":
        maj, mi, pa, bl = MAJ[::2] + (100,), MIN[::2], (0, 1, 9, 10), (None, 0, 1, 2576, 99999)
    return list(itertools.product(maj, mi, pa, bl))


def V(v):
    return real.PT.FLVersion(*v)


def run_order(ctx, lo, tier):
    vs = order_set(tier)
    for a in vs[lo:lo + 20]:
        x = V(a)
        ctx.state(a)
        for b in vs:
            y = V(b)
            ctx.step()
            got = (x < y, x <= y, x == y, x != y, x > y, x >= y)
            if a == b:
                want = (False, True, True, False, False, True)
            elif a[:3] != b[:3] or (a[3] is not None and b[3] is not None):
                lt = (a[:3], a[3] or 0) < (b[:3], b[3] or 0)
                want = (lt, lt, False, True, not lt, not lt)
            else:
                lt = x < y
                want = (lt, lt, False, True, not lt, not lt)
                if (y < x) == lt:
                    ctx.fail("%s and %s: both or neither smaller" % (text(a), text(b)))
            if got != want:
                ctx.fail("%s compared with %s gives %s, expected %s" % (text(a), text(b), got, want))
                return
    ctx.trace()


def run_triples(ctx, part):
    vs = [V(v) for v in itertools.product((3, 11), (4, 10), (0, 9), (None, 0, 1, 12, 2576))]
    for x in vs[part::8]:
        for y in vs:
            for z in vs:
                ctx.step()
                if x < y and y < z and not x < z:
                    return ctx.fail("%s < %s < %s but not %s < %s" % (x, y, z, x, z))
    ctx.eq([str(v) for v in sorted(vs)], [str(v) for v in sorted(vs[::-1])], "sorting")
    ctx.state(("triples", part))
    ctx.trace()


def run_assign(ctx, a):
    new = a >= 12
    base = "20.8.4.2576" if new else "9.1.0"
    for has_build in (0, 1):
        evs = ((199, T(base, "ascii")),) + (((159, u32(2576)),) if has_build else ()) + ((10, u8(1)),)
        proj = real.parse_state(ctx, flpfmt.State(evs))
        st = flpfmt.State(evs)
        for b in MIN:
            if a == 11 and b >= 5:
                continue
            for p in PAT:
                for bld in BLD:
                    v = (a, b, p, bld)
                    for form in (V(v), text(v), tuple(x for x in v if x is not None)):
                        proj.version = "1.2.3.77" if not new else "12.2.3.77"
                        if has_build:
                            st = st.with_event(1, u32(77))
                        proj.version = form
                        ctx.step(2)
                        st = st.with_event(0, T(text(v), "ascii"))
                        if has_build and bld is not None:
                            st = st.with_event(1, u32(bld))
                        g = proj.version
                        ctx.state((has_build, v, type(form).__name__))
                        if (g.major, g.minor, g.patch, g.build) != v:
                            return ctx.fail("version = %r reads %s" % (form, g))
                        got = b"".join(bytes(e) for e in proj.events)
                        if got != flpfmt.enc_events(st.events):
                            return ctx.fail("version = %r stores %r" % (form, got))
                r = rules((a, b, p))
                ctx.eq(proj.arrangements.max_tracks, r["tracks"], "max_tracks after version = %r" % (form,))
        real.check_saved(ctx, proj, st, "versions of %d" % a)
        ctx.trace()


def run_short(ctx):
    """Versions with fewer numbers still decide the text encoding."""
    for t, enc in (("20", "utf-16-le"), ("12", "utf-16-le"), ("12.1", "utf-16-le"), ("11.5", "utf-16-le"), ("11", "ascii"), ("11.4", "ascii"), ("9", "ascii"), ("3.0", "ascii"),
                   ("11.10", "utf-16-le"), ("9.99", "ascii"), ("100.0", "utf-16-le")):
        st = flpfmt.State(((199, T(t, "ascii")), (194, T("Title", enc)), (10, u8(1))))
        proj = real.parse_state(ctx, st)
        ctx.state(t)
        ctx.eq(proj.title, "Title", "title of FL " + t)
        real.check_saved(ctx, proj, st, "FL " + t)
        ctx.eq(proj.version.major, int(t.split(".")[0]), "major of " + t)
    ctx.trace()


def run_parsed(ctx):
    """The version of one project never decides about another one."""
    a = real.parse_bytes(ctx, flpfmt.encode(flpfmt.State(((199, T("9.0.0", "ascii")), (194, T("Old", "ascii")), (66, u16(120)), (93, u16(0))))), "a.flp")
    b = real.parse_bytes(ctx, flpfmt.encode(flpfmt.State(((199, T("20.0.0", "ascii")), (194, T("New")), (156, u32(120000))))), "b.flp")
    for _ in range(2):
        ctx.eq((a.title, b.title), ("Old", "New"), "titles")
        a.title, b.title = "Older", "Newer"
        a.tempo = 900
        ctx.eq(real.same(real.outcome(lambda: setattr(b, "tempo", 900)), Raises("ValueError")), True, "tempo 900 in FL 20")
        ctx.eq(real.save_bytes(ctx, a), flpfmt.encode(flpfmt.State(((199, T("9.0.0", "ascii")), (194, T("Older", "ascii")), (66, u16(900)), (93, u16(0))))), "old project")
        ctx.eq(real.save_bytes(ctx, b), flpfmt.encode(flpfmt.State(((199, T("20.0.0", "ascii")), (194, T("Newer")), (156, u32(120000))))), "new project")
        a.title, b.title, a.tempo = "Old", "New", 120
    ctx.state("parsed")
    ctx.trace()
