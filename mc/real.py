"""The implementation side: drives the real pyflp of /repo and compares it with the reference model."""
import importlib
import os
import pathlib
import sys

from . import codecs, engine, flpfmt, spec, templates
from .codecs import Raises, norm

sys.path.insert(0, engine.REPO)
import pyflp  # noqa: E402

if not os.path.abspath(pyflp.__file__).startswith(os.path.abspath(engine.REPO) + os.sep):
    raise ImportError("pyflp was imported from %s, not from %s" % (pyflp.__file__, engine.REPO))

from pyflp import _events as E  # noqa: E402
from pyflp import exceptions as X  # noqa: E402
from pyflp import types as PT  # noqa: E402
from pyflp import arrangement, channel, controller, mixer, pattern, plugin, project, timemarker  # noqa: E402,F401

MODS = {m: importlib.import_module("pyflp." + m)
        for m in ("channel", "arrangement", "plugin", "project", "mixer", "pattern", "timemarker", "controller")}

_SCRATCH = [None]


def scratch(ctx):
    return ctx.scratch


def parse_bytes(ctx, buf, name="in.flp"):
    path = os.path.join(ctx.scratch, name)
    with open(path, "wb") as f:
        f.write(buf)
    return pyflp.parse(path)


def parse_state(ctx, st):
    return parse_bytes(ctx, flpfmt.encode(st))


def save_bytes(ctx, proj, name="out.flp"):
    path = os.path.join(ctx.scratch, name)
    pyflp.save(proj, path)
    with open(path, "rb") as f:
        return f.read()


def convert(v):
    """Symbolic model value -> value to assign to the real attribute."""
    if isinstance(v, tuple) and v and isinstance(v[0], str):
        if v[0] == "enum":
            mod, cls = v[1].split(".")
            return getattr(getattr(MODS[mod], cls), v[2])
        if v[0] == "rgba":
            return PT.RGBA.from_bytes(v[1])
        if v[0] == "mt":
            return PT.MusicalTime(*v[1])
        if v[0] == "path":
            return pathlib.Path(v[1])
    return v


def expected_value(v):
    """What an attribute must read right after v was assigned, when v is exactly representable."""
    return norm(convert(v))


def outcome(fn):
    """-> normalised result, or Raises(exception class names, most specific first)"""
    try:
        return norm(fn())
    except engine.Hang:
        raise
    except Exception as e:
        return Raises(*[c.__name__ for c in type(e).__mro__ if issubclass(c, Exception)])


def same(got, want):
    if isinstance(want, Raises):
        return isinstance(got, Raises) and bool(set(want[1:]) & set(got[1:]))
    if isinstance(got, Raises):
        return False
    if isinstance(want, bool) and not isinstance(got, bool):
        return False  # a truth value is a bool, not 0 or 1
    if isinstance(want, bool) or isinstance(got, bool):
        return bool(got) == bool(want) and got in (0, 1) and want in (0, 1)
    if isinstance(want, float) and isinstance(got, (int, float)):
        return got == want or abs(want) != float("inf") and abs(got - want) <= 1e-9 * max(1.0, abs(want))
    if isinstance(want, tuple) and isinstance(got, tuple) and len(want) == len(got):
        return all(a == b or same(a, b) for a, b in zip(got, want))
    return got == want


def show(path):
    return "project" + "".join("." + s[1] if s[0] == "s" else ".%s[%d]" % (s[1], s[2]) for s in path)


def compare(ctx, node, obj, path=(), events=None, own=False):
    """Reads everything the model says about obj; -> number of reads."""
    n = 1
    if obj is None:
        ctx.fail("%s is None, expected %s" % (show(path), node.cls))
        return n
    if node.cls is not None and type(obj).__name__ != node.cls:
        ctx.fail("%s is a %s, expected %s" % (show(path), type(obj).__name__, node.cls))
        return n
    if own and node.own:
        pos = {id(e): i for i, e in enumerate(events)}
        got = [pos.get(id(e), -1) for e in obj.events]
        n += 1
        if got != list(node.own):
            ctx.fail("%s holds events %s, expected %s" % (show(path), got, list(node.own)))
    for name, cell in node.attrs.items():
        got = outcome(lambda: getattr(obj, name))
        want = cell.value()
        n += 1
        if not same(got, want):
            ctx.fail("%s.%s reads %s, expected %s" % (show(path), name, engine.short(got), engine.short(want)))
    for name, sub in node.subs.items():
        child = outcome_raw(lambda: getattr(obj, name))
        n += 1
        if isinstance(child, Raises):
            ctx.fail("%s.%s raises %s" % (show(path), name, child[1:]))
        elif sub is None:
            if child is not None:
                ctx.fail("%s.%s is %s, expected None" % (show(path), name, engine.short(child)))
        else:
            n += compare(ctx, sub, child, path + (("s", name),), events, own)
    for name, (getter, nodes) in node.lists.items():
        items = outcome_raw(lambda: getter(obj))
        n += 1
        if isinstance(items, Raises):
            ctx.fail("%s.%s raises %s" % (show(path), name, items[1:]))
        elif len(items) != len(nodes):
            ctx.fail("%s has %d %s, expected %d" % (show(path), len(items), name, len(nodes)))
        else:
            for i, (c, o) in enumerate(zip(nodes, items)):
                n += compare(ctx, c, o, path + (("l", name, i),), events, own)
    return n


def outcome_raw(fn):
    try:
        return fn()
    except engine.Hang:
        raise
    except Exception as e:
        return Raises(*[c.__name__ for c in type(e).__mro__ if issubclass(c, Exception)] + [str(e)[:80]])


def get(proj, tree, path):
    """The real object at a model path."""
    obj, node = proj, tree
    for s in path:
        if s[0] == "s":
            obj, node = getattr(obj, s[1]), node.subs[s[1]]
        else:
            getter, nodes = node.lists[s[1]]
            obj, node = getter(obj)[s[2]], nodes[s[2]]
    return obj


TWIN = " (equal contents)"


def check_project(ctx, st, own=True, label=""):
    """Parses st and compares the whole object tree with the model -> project

    With own, also that every object holds its own events, once more with equal payloads in all objects of a kind."""
    if own and not label.endswith(TWIN):
        twin = templates.twin(st)
        if twin != st:
            check_project(ctx, twin, True, label + TWIN)
    raw = flpfmt.encode(st)
    ctx.state(raw)
    proj = parse_bytes(ctx, raw)
    tree = spec.build(st)
    n0 = len(ctx.fails)
    ctx.step(compare(ctx, tree, proj, (), list(proj.events), own))
    ctx.trace()
    if label:
        for i in range(n0, len(ctx.fails)):
            ctx.fails[i] = label + ": " + ctx.fails[i]
    return proj


def check_saved(ctx, proj, st, what):
    got, want = save_bytes(ctx, proj), flpfmt.encode(st)
    ctx.step()
    if got != want:
        ctx.fail("%s: saved file differs: %s" % (what, diff(want, got)))
        return False
    return True


def diff(want, got):
    if got == want:
        return "same"
    try:
        a, b = flpfmt.decode(want), flpfmt.decode(got)
    except Exception:
        k = next((i for i, (x, y) in enumerate(zip(want, got)) if x != y), min(len(want), len(got)))
        return "first at byte %d, lengths %d / %d" % (k, len(want), len(got))
    out = []
    if a[1:] != b[1:]:
        out.append("header %r -> %r" % (a[1:], b[1:]))
    if len(a.events) != len(b.events):
        out.append("%d events -> %d" % (len(a.events), len(b.events)))
    for i, (x, y) in enumerate(zip(a.events, b.events)):
        if x != y:
            j = next((j for j, (p, q) in enumerate(zip(x[1], y[1])) if p != q), min(len(x[1]), len(y[1])))
            out.append("event %d (id %d -> %d) at byte %d: expected %s, got %s" % (
                i, x[0], y[0], j, x[1][max(0, j - 1):j + 5].hex(), y[1][max(0, j - 1):j + 5].hex()))
            if len(out) > 3:
                break
    return "; ".join(out) or "encoding differs"
