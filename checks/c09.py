"""C09: saving is exact, repeatable and all-or-nothing on bad data."""
import itertools
import os
import pathlib
import resource
import signal

from mc import codecs, engine, flpfmt, real, spec, templates, writes
from mc.codecs import Raises
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["an unserialisable value may be refused by the assignment or by save, but never be saved as something else",
               "what a write refused by the file system leaves at the target is not judged (PyFLP promises nothing there)"]
PARTS = 8


def BOUNDS(tier):
    return {"faults": "every writable integer / float / text attribute and every fixed-size, text and data event of every section holds an unserialisable value, one at a time",
            "histories": "all sequences of %d operations over 8 (save to two targets, four writes, a bad write, its correction)" % (4 if tier == "quick" else 5),
            "file system": "the file system refuses the write after every number of bytes 0..size-1 of %d projects (RLIMIT_FSIZE), with and without an older target; missing folder, folder as target" % (5 if tier == "quick" else 15),
            "headers": "10 formats x 11 PPQs x 12 channel counts, parsed and assigned"}


def cases(tier):
    lvl = 2 if tier == "thorough" else 1
    for name in templates.SECTIONS:
        for j in range(lvl):
            for part in range(PARTS):
                yield ("attr", name, j, part)
            for part in range(2):
                yield ("event", name, j, part)
            yield ("repeat", name, j)
    for j in range(8 * lvl):
        yield ("rich", j)
        yield ("old", j)
    for f in flpfmt.FORMATS:
        yield ("header", f)
    for a in range(8):
        for b in range(8):
            yield ("history", a, b, 4 if lvl == 1 else 5)
    yield ("target",)
    for name in ("misc", "pattern", "project", "oldproject", "vst") if lvl == 1 else templates.SECTIONS:
        for part in range(4):
            yield ("refused", name, part)


OLD = b"previous contents of the target"


def put_old(ctx, name="target.flp"):
    path = os.path.join(ctx.scratch, name)
    with open(path, "wb") as f:
        f.write(OLD)
    return path


def content(path):
    with open(path, "rb") as f:
        return f.read()


def must_fail(ctx, proj, what):
    path = put_old(ctx)
    got = real.outcome(lambda: real.pyflp.save(proj, path))
    ctx.step()
    if not isinstance(got, Raises):
        ctx.fail("%s: save accepted it" % what)
    now = content(path)
    if now != OLD:
        ctx.fail("%s: the existing target was changed (%d bytes)" % (what, len(now)))


def must_save(ctx, proj, st, what):
    path = put_old(ctx)
    got = real.outcome(lambda: real.pyflp.save(proj, path))
    ctx.step()
    if got is not None:
        return ctx.fail("%s: save raises %s" % (what, got[1:]))
    want, now = flpfmt.encode(st), content(path)
    if now != want:
        ctx.fail("%s: %s" % (what, real.diff(want, now)))


def bad_value(cell):
    c = cell.codec
    while isinstance(c, (spec.RecCodec,)):
        c = c.c
    if isinstance(c, spec.VSTWhole):
        return "\ud800" if c.text else None
    if isinstance(c, spec.VSTField):
        c = c.c
    if isinstance(c, codecs.Text):
        return "\ud800"
    if type(c) is codecs.Int:
        return 1 << (8 * c.size + 1)
    if type(c) is codecs.Flt:
        return "no number"
    if isinstance(c, codecs.Half):
        return 1 << 20
    if isinstance(c, codecs.LogNorm):
        return (1.5, -0.25, 1.0000001)
    if isinstance(c, codecs.Log2):
        return (0.0, -1.0)
    return None


def run(case, ctx):
    kind = case[0]
    ctx.count(kind)
    if kind == "refused":
        refused(ctx, templates.SECTIONS[case[1]](0), case[2])
    elif kind == "attr":
        attrs(ctx, templates.SECTIONS[case[1]](case[2]), case[3])
    elif kind == "event":
        events(ctx, templates.SECTIONS[case[1]](case[2]), case[3])
    elif kind == "repeat":
        repeat(ctx, templates.SECTIONS[case[1]](case[2]))
    elif kind in ("rich", "old"):
        repeat(ctx, getattr(templates, kind)(case[1]))
    elif kind == "header":
        header(ctx, case[1])
    elif kind == "history":
        history(ctx, case)
    else:
        target(ctx)


def attrs(ctx, st, part):
    tree = spec.build(st)
    proj = real.parse_bytes(ctx, flpfmt.encode(st))
    for n, (path, node, attr, cell) in enumerate(list(spec.writable(tree, False))):
        if n % PARTS != part or cell.codec is None:
            continue
        cell = spec.resolve(tree, path).attrs[attr]
        bads = bad_value(cell)
        if bads is None:
            continue
        for bad in bads if isinstance(bads, tuple) else (bads,):
            st, tree = wrong(ctx, st, tree, proj, path, attr, bad)
            if st is None or len(ctx.fails) > 6:
                return


def wrong(ctx, st, tree, proj, path, attr, bad):
    """The attribute set to a value that cannot be stored, then corrected. -> new state and model"""
    cell = spec.resolve(tree, path).attrs[attr]
    if isinstance(bad, str) and isinstance(cell.codec, codecs.PathText):
        return st, tree
    what = "%s.%s = %r" % (real.show(path), attr, bad)
    good = cell.few()[-1]
    ctx.state((attr, bad, flpfmt.encode(st)))
    ctx.trace()
    if writes.set_attr(ctx, proj, tree, path, attr, bad) is None:
        must_fail(ctx, proj, what)
        must_fail(ctx, proj, what + " (again)")
    else:
        must_save(ctx, proj, st, what + " refused")
    # corrected
    st = spec.apply(st, cell.write(good))
    got = writes.set_attr(ctx, proj, tree, path, attr, good)
    if got is not None:
        ctx.fail("%s: correcting it raises %s" % (what, got[1:]))
        return None, None
    must_save(ctx, proj, st, what + " corrected")
    return st, spec.build(st)


def events(ctx, st, part):
    """An unserialisable value in the event at every position."""
    raw = flpfmt.encode(st)
    for k, (i, p) in enumerate(st.events):
        kind = spec.kind_of(i)
        if k % 2 != part or kind in ("struct", "plugin", "bool", "color", "pair"):
            continue
        proj = real.parse_bytes(ctx, raw)
        e = list(proj.events)[k]
        bad = "\ud800" if kind in ("text", "ascii") else "not a number" if kind == "f32" else 12345 if kind == "blob" else 1 << 40
        good = e.value
        what = "event %d (id %d) = %r" % (k, i, bad)
        got = real.outcome(lambda: setattr(e, "value", bad))
        ctx.step()
        ctx.state((k, raw))
        ctx.trace()
        if got is None:
            must_fail(ctx, proj, what)
        e.value = good
        must_save(ctx, proj, st, what + " corrected")


def repeat(ctx, st):
    raw = flpfmt.encode(st)
    ctx.state(raw)
    proj = real.parse_bytes(ctx, raw)
    for k, path in enumerate((os.path.join(ctx.scratch, "a.flp"), pathlib.Path(ctx.scratch) / "b.flp", os.path.join(ctx.scratch, "in.flp"),
                              os.path.join(ctx.scratch, "a.flp"))):
        real.pyflp.save(proj, path)
        ctx.step()
        now = content(str(path))
        if now != raw:
            ctx.fail("save %d: %s" % (k, real.diff(raw, now)))
        again = real.pyflp.parse(path)
        a, b = list(proj.events), list(again.events)
        ctx.eq(len(a), len(b), "events after reload")
        for x, y in zip(a, b):
            ctx.step()
            if int(x.id) != int(y.id) or bytes(x) != bytes(y) or not x == y:
                ctx.fail("event id %d differs after reload" % x.id)
                break
        ctx.eq((int(again.format), again.channel_count, again.ppq), (st.fmt, st.channels, st.ppq), "header after reload")
    ctx.trace()


def header(ctx, fmt):
    evs = ((199, T("20.8.4", "ascii")), (10, u8(1)))
    live = real.parse_bytes(ctx, flpfmt.encode(flpfmt.State(evs)))
    F = real.MODS["project"].FileFormat
    for ppq in flpfmt.PPQS:
        for ch in (0, 1, 2, 3, 127, 128, 255, 256, 1000, 32767, 32768, 65535):
            st = flpfmt.State(evs, fmt, ch, ppq)
            ctx.state(flpfmt.encode(st))
            must_save(ctx, real.parse_bytes(ctx, flpfmt.encode(st)), st, "parsed header %r" % (st[1:],))
            live.format, live.channel_count, live.ppq = F(fmt), ch, ppq
            must_save(ctx, live, st, "assigned header %r" % (st[1:],))
            ctx.trace()
    for bad in (65536, 1 << 20):
        live.channel_count = bad
        must_fail(ctx, live, "channel_count = %d" % bad)
        live.channel_count = 5
        must_save(ctx, live, st._replace(channels=5), "channel_count corrected")


def hist_state():
    g = Gen(2).head(True)
    g.raw(65, u16(1)).raw(224, g.notes(2)).t(193, "pat")
    return g.state(channels=4)


NOTE0 = (("s", "patterns"), ("l", "patterns", 0), ("l", "notes", 0))
OPS = (("save", "a"), ("save", "b"), ("set", (), "title", "A longer title than before"), ("set", (), "main_volume", 77),
       ("set", NOTE0, "velocity", 99), ("set", (), "title", "x"), ("bad", NOTE0, "length", 1 << 40), ("set", NOTE0, "length", 48))


def history(ctx, case):
    for n in range(0, case[3] - 1):
        for rest in itertools.product(range(8), repeat=n):
            one_history(ctx, (case[1], case[2]) + rest)


def one_history(ctx, seq):
    st = hist_state()
    proj = real.parse_bytes(ctx, flpfmt.encode(st))
    files = {}
    for n in "ab":
        put_old(ctx, "h" + n)
        files[n] = OLD
    bad = False
    for o in seq:
        op = OPS[o]
        if op[0] == "save":
            path = os.path.join(ctx.scratch, "h" + op[1])
            got = real.outcome(lambda: real.pyflp.save(proj, path))
            if bad != isinstance(got, Raises):
                ctx.fail("history %s: save %s" % (seq, "accepted a bad value" if bad else "raises %s" % (got,)))
            if not bad:
                files[op[1]] = flpfmt.encode(st)
            for n in "ab":
                ctx.step()
                now = content(os.path.join(ctx.scratch, "h" + n))
                if now != files[n]:
                    ctx.fail("history %s: file %s is wrong: %s" % (seq, n, real.diff(files[n], now)))
        else:
            tree = spec.build(st)
            got = writes.set_attr(ctx, proj, tree, op[1], op[2], op[3])
            if op[0] == "bad":
                if got is None:
                    bad = True
            else:
                if got is not None:
                    ctx.fail("history %s: %s = %r raises %s" % (seq, op[2], op[3], got[1:]))
                st = spec.apply(st, spec.resolve(tree, op[1]).attrs[op[2]].write(op[3]))
                if op[2] == "length":
                    bad = False
        ctx.state((bad, flpfmt.encode(st), tuple(sorted(files.items()))))
        if ctx.fails:
            return
    ctx.trace()


def target(ctx):
    """An unusable target: an error, and the project still saves elsewhere."""
    st = hist_state()
    proj = real.parse_bytes(ctx, flpfmt.encode(st))
    d = os.path.join(ctx.scratch, "dir")
    os.makedirs(d, exist_ok=True)
    for path in (d, os.path.join(ctx.scratch, "missing", "x.flp")):
        got = real.outcome(lambda: real.pyflp.save(proj, path))
        ctx.step()
        ctx.state(("target", path == d))
        if not real.same(got, Raises("OSError")):
            ctx.fail("save to an unusable target: %s" % (got,))
        must_save(ctx, proj, st, "after an unusable target")
    ctx.trace()


def refused(ctx, st, part):
    """Every point at which the file system may refuse to go on."""
    raw = flpfmt.encode(st)
    proj = real.parse_state(ctx, st)
    path = os.path.join(ctx.scratch, "refused.flp")
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    bad = [(None, os.path.join(ctx.scratch, "no such folder", "x.flp")), (None, ctx.scratch)]
    for k, target in bad + [(k, path) for k in range(part, len(raw), 4)]:
        if target == path:
            if k % 8 < 4 and os.path.exists(path):
                os.unlink(path)
            elif k % 8 >= 4:
                put_old(ctx, "refused.flp")
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
        try:
            got = real.outcome(lambda: real.pyflp.save(proj, target))
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        ctx.state((part, k, target == path, raw))
        if not isinstance(got, Raises):
            ctx.fail("the write to %s was refused after %s of %d bytes and save reported success" % (os.path.basename(target), k, len(raw)))
            return
        ctx.step()
        if k is None or k % 5 == 0 or k > len(raw) - 8:
            must_save(ctx, proj, st, "after a write refused at byte %s" % k)
            ctx.trace()
            if ctx.fails:
                return
    tree = spec.build(st)
    ctx.step(real.compare(ctx, tree, proj))
