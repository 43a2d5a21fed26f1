"""Steps of write histories, shared by the checks."""
from . import engine, flpfmt, real, spec
from .codecs import Raises


def set_attr(ctx, proj, tree, path, name, v):
    """Performs the assignment on the real project -> None or Raises(...)"""
    ctx.step()
    return real.outcome(lambda: setattr(real.get(proj, tree, path), name, real.convert(v)))


def new_value(st, path, name):
    return spec.resolve(spec.build(st), path).attrs[name].value()


def step(ctx, proj, st, tree, path, name, v, save=True, full=False):
    """Assigns, compares outcome, read-back and saved bytes with the model -> (new state, new tree)."""
    cell = spec.resolve(tree, path).attrs[name]
    w = cell.write(v)
    what = "%s.%s = %s" % (real.show(path), name, engine.short(v))
    got = set_attr(ctx, proj, tree, path, name, v)
    if isinstance(w, Raises):
        if not real.same(got, w):
            ctx.fail("%s: %s, expected %s" % (what, "accepted" if got is None else "raises %s" % (got[1],), w[1:]))
    else:
        if got is not None:
            ctx.fail("%s raises %s" % (what, got[1:]))
        st = spec.apply(st, w)
        tree = spec.build(st)
    ctx.state(flpfmt.encode(st))
    if spec.resolve(tree, path).attrs.get(name) is not None:
        want = spec.resolve(tree, path).attrs[name].value()
        back = real.outcome(lambda: getattr(real.get(proj, tree, path), name))
        ctx.step()
        if not real.same(back, want):
            ctx.fail("%s reads back as %s, expected %s" % (what, engine.short(back), engine.short(want)))
    if save:
        real.check_saved(ctx, proj, st, what)
    if full:
        n = len(ctx.fails)
        ctx.step(real.compare(ctx, tree, proj))
        for k in range(n, len(ctx.fails)):
            ctx.fails[k] = "after " + what + ": " + ctx.fails[k]
    return st, tree
