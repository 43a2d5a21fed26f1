"""C10: event views stay coherent under any edit sequence."""
import itertools

from mc import engine, flpfmt, real, spec, templates
from mc.codecs import Raises
from mc.templates import Gen, T, u8, u16, u32

LEVEL = "model_checking"
ASSUMPTIONS = ["views which hold an event popped through an ancestor or sibling are not looked at again",
               "where an event goes in an ancestor is only constrained by the order of the view it was inserted through; into an empty view anywhere"]
A, B, C = 1, 2, 3


def BOUNDS(tier):
    return {"edit histories": "all sequences of up to %d edits over root and 4 views (child, sibling, grandchild, empty), 4 start trees; up to %d over 4-level chains of views and over nested parts made by divide, separate, group and subtrees" % (2 if tier == "quick" else 3, 2 if tier == "quick" else 3),
            "long histories": "all 2-cycles of edits repeated to length 40; trees of 2500 events",
            "derivations": "all event sequences of length <= %d over 3 ids" % (6 if tier == "quick" else 8),
            "projects": "every single insertion and removal through root and model views of the small projects"}


def E(i):
    return real.E.EventEnum(i)


_n = [0]


def ev(i):
    _n[0] += 1
    return real.E.U8Event(E(i), bytes((_n[0] % 256,)))


SHAPED = ((A, B, C, A), (B, A, B))
STARTS = ((A, B, A, C, B), (A, A), (B, C, A, B), ())


def cases(tier):
    lvl = 2 if tier == "thorough" else 1
    for s in range(len(STARTS)):
        n = len(list(all_ops(World(STARTS[s]))))
        for first in range(n):
            yield ("edit", s, first, 2 if lvl == 1 else 3)
    for shape in ("deep", "parts"):
        for s in range(len(SHAPED)):
            for first in range(len(list(all_ops(World(SHAPED[s], shape))))):
                yield ("shaped", shape, s, first, lvl)
    for s in range(len(STARTS)):
        yield ("long", s)
    yield ("big",)
    for n in range(0, 7 if lvl == 1 else 9):
        for first in range(3 if n else 1):
            yield ("derive", n, first)
    yield ("eq",)
    for name in ("pattern", "misc", "generators") if lvl == 1 else sorted(templates.SECTIONS):
        for part in range(4):
            yield ("project", name, part)


class World:
    """A root tree, its views, and the model: a plain list of events per view."""

    def __init__(self, ids, shape="flat"):
        T_ = real.E.EventTree
        evs = [ev(i) for i in ids]
        self.root = T_(init=[real.E.IndexedEvent(k, e) for k, e in enumerate(evs)])
        self.views, self.model, self.parent = [self.root], [list(evs)], [None]
        getattr(self, shape)()
        self.dead = set()

    def flat(self):
        self.add(self.root, 0, lambda e: int(e.id) in (A, B))
        self.add(self.root, 0, lambda e: int(e.id) in (B, C))
        self.add(self.views[1], 1, lambda e: int(e.id) == A)
        self.add(self.root, 0, lambda e: False)

    def deep(self):
        """A chain of nested views, with a sibling half-way down."""
        for p in range(4):
            self.add(self.views[p], p, lambda e: int(e.id) != C)
        self.add(self.views[2], 2, lambda e: int(e.id) == A)

    def parts(self):
        """Views made in the other ways, nested."""
        IDS = (E(A), E(B), E(C))
        for t in list(self.root.divide(IDS[0], *IDS))[:2]:
            self.adopt(t, 0)
        for p in range(1, len(self.views)):
            for t in list(self.views[p].separate(IDS[1]))[:1]:
                self.adopt(t, p)
        for t in list(self.root.group(*IDS))[:1]:
            self.adopt(t, 0)
        for t in list(self.root.subtrees(lambda e: int(e.id) != B, -1))[:2]:
            self.adopt(t, 0)
        self.add(self.views[-1], len(self.views) - 1, lambda e: True)

    def adopt(self, tree, p):
        self.views.append(tree)
        self.model.append(list(tree))       # what is in a fresh view is judged by run_derive
        self.parent.append(p)

    def add(self, tree, p, select):
        self.views.append(tree.subtree(lambda e: True if select(e) else None))
        self.model.append([e for e in self.model[p] if select(e)])
        self.parent.append(p)

    def ancestors(self, v):
        out = []
        while self.parent[v] is not None:
            v = self.parent[v]
            out.append(v)
        return out

    def live(self):
        return [v for v in range(len(self.views)) if v not in self.dead]


def all_ops(w):
    for v in w.live():
        n = len(w.model[v])
        for i in (A, C):
            for pos in range(n + 2):
                yield ("insert", v, pos, i)
            if n > 1 and i == A:
                yield ("insert", v, -1, i)
            yield ("append", v, 0, i)
        yield ("iadd", v, 0, B)
        for i in (A, B, C):
            have = sum(1 for e in w.model[v] if int(e.id) == i)
            for pos in range(have):
                yield ("pop", v, pos, i)
                yield ("remove", v, pos, i)
            if have > 1:
                yield ("pop", v, -1, i)
            if i == A or not have:      # one too far / not there at all
                yield ("pop", v, have, i)


def subseq(a, b):
    it = iter(b)
    return all(any(x is y for y in it) for x in a)


def same_list(got, want):
    return len(got) == len(want) and all(x is y for x, y in zip(got, want))


def names(lst):
    return ["%d/%d" % (int(e.id), e.value) for e in lst]


def do(ctx, w, op):
    """Applies one edit to the real trees and the model."""
    kind, v, pos, i = op
    tree, mod = w.views[v], w.model[v]
    ctx.step()
    if kind in ("insert", "append", "iadd"):
        e = ev(i)
        if kind == "insert":
            tree.insert(pos, e)
        elif kind == "append":
            tree.append(e)
            pos = len(mod)
        else:
            tree += e
            pos = len(mod)
        new = mod[:pos] + [e] + mod[pos:]
        got = list(tree)
        if not same_list(got, new):
            return ctx.fail("%s: the view holds %s, expected %s" % (op, names(got), names(new)))
        w.model[v] = new
        below = new
        for a in w.ancestors(v):
            got = list(w.views[a])
            rest = [x for x in got if x is not e]
            if len(got) != len(rest) + 1:
                return ctx.fail("%s: an ancestor holds the new event %d times" % (op, len(got) - len(rest)))
            if not same_list(rest, w.model[a]):
                return ctx.fail("%s: an ancestor's other events became %s, expected %s" % (op, names(rest), names(w.model[a])))
            if not subseq(below, got):
                return ctx.fail("%s: an ancestor holds %s, out of order with its view %s" % (op, names(got), names(below)))
            w.model[a] = got
            below = got
    else:
        mine = [e for e in mod if int(e.id) == i]
        # position 0 is also the default: on every other view it is left out
        args = (E(i),) if pos == 0 and v % 2 == 0 else (E(i), pos)
        fn = (lambda: tree.pop(*args)) if kind == "pop" else (lambda: tree.remove(*args))
        if not mine:
            try:
                fn()
            except KeyError:
                return
            return ctx.fail("%s: no KeyError for a missing id" % (op,))
        if pos >= len(mine):
            try:
                fn()
            except LookupError:
                return
            return ctx.fail("%s: no error for a position beyond the last event of this ID" % (op,))
        e = mine[pos]
        got = fn()
        if kind == "pop" and got is not e:
            return ctx.fail("%s returned %s, expected %s" % (op, names([got]) if got is not None else None, names([e])))
        for a in [v] + w.ancestors(v):
            w.model[a] = [x for x in w.model[a] if x is not e]
        up = set([v] + w.ancestors(v))
        for x in w.live():
            if x not in up and any(y is e for y in w.model[x]):
                w.dead.add(x)
        for x in list(w.live()):
            if any(p in w.dead for p in w.ancestors(x)):
                w.dead.add(x)


def lookups(ctx, w, what):
    """Everything the public lookups say agrees with the model."""
    for v in w.live():
        t, m = w.views[v], w.model[v]
        ctx.step()
        bad = None
        if not same_list(list(t), m):
            bad = "iteration gives %s, expected %s" % (names(t), names(m))
        elif len(t) != len(m):
            bad = "len is %d, expected %d" % (len(t), len(m))
        elif {int(i) for i in t.ids} != {int(e.id) for e in m}:
            bad = "ids are %s" % sorted(int(i) for i in t.ids)
        elif len(t.indexes) != len(m):
            bad = "two events at the same position (%s)" % sorted(t.indexes)
        else:
            for i in (A, B, C, 9):
                mine = [e for e in m if int(e.id) == i]
                if (E(i) in t) != bool(mine):
                    bad = "membership of %d is %s" % (i, E(i) in t)
                elif t.count(E(i)) != len(mine):
                    bad = "count(%d) is %d, expected %d" % (i, t.count(E(i)), len(mine))
                elif not same_list(list(t.get(E(i))), mine):
                    bad = "get(%d) gives %s" % (i, names(t.get(E(i))))
                else:
                    try:
                        f = t.first(E(i))
                        if not mine or f is not mine[0]:
                            bad = "first(%d) is wrong" % i
                    except KeyError:
                        if mine:
                            bad = "first(%d) raises KeyError" % i
            if not same_list(list(t.get(E(A), E(C))), [e for e in m if int(e.id) in (A, C)]):
                bad = "get of two ids is out of order"
        if bad:
            ctx.fail("%s: view %d: %s" % (what, v, bad))
            return
        if w.parent[v] is not None and w.parent[v] not in w.dead and not subseq(m, w.model[w.parent[v]]):
            return ctx.fail("%s: view %d is not in its parent's order" % (what, v))
    r = list(w.root.indexes)
    if len(r) != len(w.model[0]):
        ctx.fail("%s: root positions collide" % what)


def key(w):
    base = {id(e): k for k, e in enumerate(w.model[0])}
    return tuple(tuple((base.get(id(e), -1), int(e.id)) for e in m) for m in w.model) + (tuple(sorted(w.dead)),)


def run(case, ctx):
    globals()["run_" + case[0]](ctx, *case[1:])
    ctx.count(case[0])


def replay(ctx, start, seq):
    w = World(STARTS[start])
    for op in seq:
        do(ctx, w, op)
    return w


def run_edit(ctx, s, first, depth):
    op1 = list(all_ops(World(STARTS[s])))[first]

    if depth == 2:      # quick: all pairs completely, third edits only at the ends
        w0 = World(STARTS[s])
        do(ctx, w0, op1)
        lookups(ctx, w0, "after %s" % (op1,))
        for op2 in list(all_ops(w0)):
            w = replay(ctx, s, (op1, op2))
            if ctx.fails:
                return ctx.fail("history %s %s" % (op1, op2))
            lookups(ctx, w, "after %s %s" % (op1, op2))
            ctx.state((s, key(w)))
            ctx.trace()
            for op3 in list(all_ops(w))[::5]:
                w3 = replay(ctx, s, (op1, op2, op3))
                if not ctx.fails:
                    lookups(ctx, w3, "after %s %s %s" % (op1, op2, op3))
                ctx.state((s, key(w3)))
                ctx.trace()
                if ctx.fails:
                    return ctx.fail("history %s %s %s" % (op1, op2, op3))
    else:
        w0 = World(STARTS[s])
        do(ctx, w0, op1)
        lookups(ctx, w0, "after %s" % (op1,))
        for op2 in list(all_ops(w0)):
            w = replay(ctx, s, (op1, op2))
            lookups(ctx, w, "after %s %s" % (op1, op2))
            ctx.state((s, key(w)))
            ctx.trace()
            for op3 in list(all_ops(w)):
                w3 = replay(ctx, s, (op1, op2, op3))
                if not ctx.fails:
                    lookups(ctx, w3, "after %s %s %s" % (op1, op2, op3))
                ctx.state((s, key(w3)))
                ctx.trace()
                if ctx.fails:
                    return ctx.fail("history %s %s %s" % (op1, op2, op3))


def run_shaped(ctx, shape, s, first, lvl):
    make = lambda: World(SHAPED[s], shape)
    op1 = list(all_ops(make()))[first]

    def extend(seq, depth):
        w = make()
        for op in seq:
            do(ctx, w, op)
        if not ctx.fails:
            lookups(ctx, w, "after %s" % (seq,))
        ctx.state((shape, s, key(w)))
        ctx.trace()
        if ctx.fails:
            return ctx.fail("history %s" % (seq,))
        if depth:
            for op in list(all_ops(w)):
                extend(seq + (op,), depth - 1)
                if ctx.fails:
                    return

    extend((op1,), lvl)


def run_long(ctx, s):
    ops = [("append", v, 0, i) for v in range(4) for i in (A, B)] + [("insert", v, 0, C) for v in range(4)] + \
          [("insert", v, 1, A) for v in range(4)] + [("pop", 0, 0, A), ("pop", 0, 0, B)]
    for a in ops:
        for b in ops:
            w = World(STARTS[s])
            for k in range(40):
                op = (a, b)[k % 2]
                if op[1] in w.dead or (op[0] == "insert" and op[2] > len(w.model[op[1]])):
                    continue
                do(ctx, w, op)
                if ctx.fails:
                    return ctx.fail("history of %s and %s, step %d" % (a, b, k))
            lookups(ctx, w, "after 40 steps of %s and %s" % (a, b))
            ctx.state((s, key(w)))
            ctx.trace()


def run_big(ctx):
    """Trees large enough to be split internally."""
    w = World((A, B, C, A, B) * 500)
    n = len(w.model[0])
    for pos in (0, 1, 999, 1000, 1001, 1999, 2000, n - 1, n):
        do(ctx, w, ("insert", 0, pos, A))
        do(ctx, w, ("insert", 1, min(pos, len(w.model[1])), B))
        if ctx.fails:
            return
    lookups(ctx, w, "big tree after insertions")
    for pos in (0, 500, 900, -1):
        mine = [e for e in w.model[3] if int(e.id) == A]
        do(ctx, w, ("pop", 3, len(mine) - 1 if pos < 0 else pos, A))
    lookups(ctx, w, "big tree after removals")
    ctx.state(key(w))
    ctx.trace()


def run_derive(ctx, n, first):
    for rest in itertools.product((A, B, C), repeat=max(0, n - 1)):
        ids = ((A, B, C)[first],) + rest if n else ()
        derive(ctx, ids)


def derive(ctx, ids):
    IE, T_ = real.E.IndexedEvent, real.E.EventTree
    evs = [ev(i) for i in ids]
    root = T_(init=[IE(k, e) for k, e in enumerate(evs)])
    ctx.state(("derive", ids))
    ctx.trace()

    def check(what, got, want, parent=root):
        ctx.step()
        got = list(got)
        if len(got) != len(want) or not all(same_list(list(g), x) for g, x in zip(got, want)):
            ctx.fail("%s of %s gives %s, expected %s" % (what, ids, [names(g) for g in got], [names(x) for x in want]))
        elif any(g.root is not root or g.parent is not parent for g in got):
            ctx.fail("%s of %s: a view is not attached to its parent" % (what, ids))

    for sel in ((A,), (B, C), (A, B, C), ()):
        want = [e for e in evs if int(e.id) in sel]
        check("select %s" % (sel,), [root.subtree(lambda e: int(e.id) in sel)], [want])
        check("select(None) %s" % (sel,), [root.subtree(lambda e: True if int(e.id) in sel else None)], [want])
        # divide: every separator starts a part
        for sep in (A, C):
            parts, cur, seen = [], [], False
            for e in evs:
                if int(e.id) == sep:
                    if seen:
                        parts.append(cur)
                        cur = []
                    seen = True
                if int(e.id) in sel:
                    cur.append(e)
            if seen:
                parts.append(cur)
            check("divide by %d into %s" % (sep, sel), root.divide(E(sep), *[E(i) for i in sel]), parts)
        # group: k-th events of every id
        if sel:
            cols = [[e for e in evs if int(e.id) == i] for i in sel]
            want = []
            for k in range(max(len(c) for c in cols)):
                want.append(sorted((c[k] for c in cols if len(c) > k), key=lambda e: [x is e for x in evs].index(True)))
            check("group %s" % (sel,), root.group(*[E(i) for i in sel]), want)
    for i in (A, B, C):
        check("separate %d" % i, root.separate(E(i)), [[e] for e in evs if int(e.id) == i])
    # subtrees: False ends a view and starts the next with the same event, None skips
    for repeat in (-1, 0, 1, 2):
        parts, cur, left, began = [], [], repeat, [False]

        def decide(e, state):
            if int(e.id) == A:
                if state[0]:
                    return False
                state[0] = True
                return True
            return True if int(e.id) == B else None

        for e in evs:
            if not left:
                break
            r = decide(e, began)
            if r is False:
                parts.append(cur)
                cur = [e]
                left -= 1
            elif r is not None:
                cur.append(e)
        if left and cur:
            parts.append(cur)
        st = [False]
        check("split x%d" % repeat, root.subtrees(lambda e: decide(e, st), repeat), parts)
    # views of views
    top = root.subtree(lambda e: int(e.id) in (A, B))
    ab = [e for e in evs if int(e.id) in (A, B)]
    check("nested select", [top.subtree(lambda e: int(e.id) == B)], [[e for e in ab if int(e.id) == B]], top)
    check("nested separate", top.separate(E(A)), [[e] for e in ab if int(e.id) == A], top)


def run_eq(ctx):
    """Trees are equal exactly when they hold equal events at equal positions."""
    IE, T_, U = real.E.IndexedEvent, real.E.EventTree, real.E.U8Event
    seqs = [s for n in range(4) for s in itertools.product(((A, 0), (A, 1), (B, 0)), repeat=n)]
    mk = lambda s, off=0: T_(init=[IE(k + off, U(E(i), bytes((v,)))) for k, (i, v) in enumerate(s)])
    for x in seqs:
        for y in seqs:
            ctx.eq(mk(x) == mk(y), x == y, "equality of %s and %s" % (x, y))
            ctx.eq(mk(x) != mk(y), x != y, "inequality of %s and %s" % (x, y))
            ctx.state(("eq", x, y))
        if x:
            ctx.eq(mk(x) == mk(x, 1), False, "equality of %s at other positions" % (x,))
        ctx.eq(mk(x) == 5, False, "comparison with something else")
    ctx.trace()


def run_project(ctx, name, part):
    """Edits of a parsed project show up in the saved file, and only they."""
    st = templates.SECTIONS[name](0)
    raw = flpfmt.encode(st)
    tree = spec.build(st)
    new_e = (60, u8(7))

    def fresh():
        return real.parse_bytes(ctx, raw)

    owners = [((), list(range(len(st.events))))] + [(p, n.own) for p, n in tree.walk() if n.own]
    for k, (path, own) in enumerate(owners):
        for pos in range(len(own) + 1):
            if (k + pos) % 4 != part:
                continue
            proj = fresh()
            obj = real.get(proj, tree, path)
            e = real.E.U8Event(E(60), b"\7")
            obj.events.insert(pos, e)
            out = flpfmt.decode(real.save_bytes(ctx, proj))
            ctx.step(2)
            ctx.trace()
            ctx.state((name, path, pos))
            got = list(out.events)
            what = "insert at %d of %s" % (pos, real.show(path))
            if got.count(new_e) != 1:
                ctx.fail("%s: saved %d times" % (what, got.count(new_e)))
                return
            at = got.index(new_e)
            rest = got[:at] + got[at + 1:]
            lo = own[pos - 1] + 1 if pos else 0
            hi = own[pos] if pos < len(own) else len(st.events)
            if rest != list(st.events) or not lo <= at <= hi:
                ctx.fail("%s: saved at %d, expected between %d and %d; other events %s" % (what, at, lo, hi, "kept" if rest == list(st.events) else "disturbed"))
        for pos in range(len(own)):
            if (k + pos) % 4 != part:
                continue
            proj = fresh()
            obj = real.get(proj, tree, path)
            id = st.events[own[pos]][0]
            nth = sum(1 for x in own[:pos] if st.events[x][0] == id)
            popped = obj.events.pop(E(id), nth)
            ctx.step(2)
            ctx.trace()
            what = "pop event %d of %s" % (pos, real.show(path))
            if bytes(popped) != flpfmt.enc_event(*st.events[own[pos]]):
                ctx.fail("%s: returned another event" % what)
            real.check_saved(ctx, proj, st.without(own[pos]), what)
