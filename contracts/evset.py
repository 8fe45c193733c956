"""C16: EventedSet, EventedOrderedSet, OrderedSet.

The set under contract is an arbitrary one.  `last` is the contents the events so far account for; each items_changed event
must list exactly the difference between the contents now and `last`, items disjoint and without repetition.  The contract
of `paused(reducer)` (C07: what is emitted meanwhile is held back, and emitted once, reduced, at the end, if there was
anything) is used for the methods that change many items; that `_reduce_events` concatenates is proved here.

Items are taken up to equality (equal items are one item), hashing and comparing them is assumed not to fail.
Trusted: the builtin set and dict operations on `_data` (pyvc/lib.py)."""
from .common import *
from pyvc import loops

ES = "psygnal.containers._evented_set"
SELECTION = {}     # set by contracts/selection.py: the same operations on a Selection
EVENTED = ("EventedSet", "EventedOrderedSet")
ALL = EVENTED + ("OrderedSet",)
GH = {("g", k) for k in ("last", "nev", "paused", "acc_a", "acc_r", "nbuf")}
EMPTY = Seq.of([])
ITEMS_CHANGED = z3.Function("items_changed_of", V, V)
I = z3.IntSort()


class SS:
    pass


def ordered(cls):
    return cls != "EventedSet"


def new_contents(E, st, cls, name):
    """(st, payload, ref) arbitrary contents for `_data` of the class"""
    if ordered(cls):
        st, d = lib.fresh_dict(st, name)
        d.val = lambda t: None
        st, ref = E.alloc(st, Ext("builtins.dict"), data=d, kind="dict")
    else:
        has, n = fresh_fun(name + "_has", V, z3.BoolSort()), fresh_int(name + "_n")
        st, f, idx = lib.keys_order(st, lambda t: has(t), n, name + "_order")
        d = SetS(lambda t: has(t), n, Seq(n, lambda k: SV(f(zlen(k)), "atom")))
        st, ref = E.alloc(st, Ext("builtins.set"), data=d, kind="set")
    return st, d, ref


def evset(U, cls, mod=ES):
    E = U.E
    S = SS()
    S.E, S.U, S.cls = E, U, cls
    st = St()
    st, S.d0, S.dref = new_contents(E, st, cls, "s")
    S.ev = SV(fresh_v("events"), "setevents")
    S.evented = cls != "OrderedSet"
    over = {}
    if cls == "Selection":
        st, over, mod = SELECTION["pre"](S, st)
    st, S.obj = E.alloc(st, E.loader.cls(mod, cls), {"_data": S.dref, **({"events": S.ev} if S.evented else {}), **over})
    st = st.g(last=S.d0, nev=0, paused=False, acc_a=EMPTY, acc_r=EMPTY, nbuf=0)
    E.schema[("setevents", "items_changed")] = lambda E, st, v, ctx: [(st, SV(ITEMS_CHANGED(v.t), "setevt"))]
    E.schema[("setevt", "emit")] = lambda E, st, v, ctx: [(st, Partial(Ext("setevt.emit"), [v], {}))]
    E.schema[("setevt", "()")] = lambda E, st, f, ca, ctx: emit(E, st, CallArgs([f] + list(ca.pos), ca.star, ca.kw), ctx, None)
    E.schema[("setevt", "paused")] = lambda E, st, v, ctx: [(st, Partial(Ext("setevt.paused"), [v], {}))]
    E.assumptions.add("listeners of a set's events neither raise nor change the set while an operation on it runs")
    E.assumptions.add("items are hashable, and comparing them does not fail")
    E.schema[("isinstance", f"{ES}:BailType")] = lambda E, st, v: False if isinstance(v, (SV, tuple, Seq)) else None

    def mine(v):
        return is_lit(z3.simplify(v.t == ITEMS_CHANGED(S.ev.t))) is True

    def as_seq(v):
        if isinstance(v, (tuple, Seq)):
            return Seq.of(v) if isinstance(v, tuple) else v
        raise Unsupported(f"items of an event: {v!r}")

    def emit(E, st, ca, ctx, fn):
        who, args = ca.pos[0], list(ca.pos[1:])
        if ca.star is not None or ca.kw:
            raise Unsupported("event emitted with * arguments")
        if not mine(who):
            return [(st, None)]
        E.obligation("an event has the items added and those removed", st, z3.BoolVal(len(args) == 2))
        if len(args) != 2:
            return [(st, None)]
        a, r = as_seq(args[0]), as_seq(args[1])
        g = st.ghost
        if g["paused"]:
            return [(st.g(acc_a=seq_concat(g["acc_a"], a), acc_r=seq_concat(g["acc_r"], r), nbuf=mkint(zi(g["nbuf"]) + 1)), None)]
        return [(monitor(S, st, a, r), None)]
    E.stubs["setevt.emit"] = emit

    def paused(E, st, ca, ctx, fn):
        who = ca.pos[0]
        if mine(who):
            red = ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("reducer")
            if not (isinstance(red, Fn) and red.qual == f"{ES}:_reduce_events"):
                raise Unsupported(f"events reduced by {red!r}")
            if st.ghost["paused"]:
                raise Unsupported("paused twice")
        return [(st, SV(who.t, "setpause"))]
    E.stubs["setevt.paused"] = paused

    def with_(E, st, cm, body, ctx):
        if not mine(cm):
            return body(st, None)

        def resume(s):
            g = s.ghost
            a, r, nb = g["acc_a"], g["acc_r"], zi(g["nbuf"])
            s = s.g(paused=False, acc_a=EMPTY, acc_r=EMPTY, nbuf=0)
            return [monitor(S, s2, a, r) if b else s2 for s2, b in E.split(s, nb > 0)]
        mark = len(ctx.sink)
        outs = body(st.g(paused=True, acc_a=EMPTY, acc_r=EMPTY, nbuf=0), None)
        res = [(k, s2, v) for k, s, v in outs for s2 in resume(s)]
        ctx.sink[mark:] = [(s2, e) for s, e in ctx.sink[mark:] for s2 in resume(s)]
        return res
    E.schema[("setpause", "with")] = with_

    def make(E, st, ca, ctx, cls):
        e = fresh_v("newevents")
        return [(st.assume(e != S.ev.t, ITEMS_CHANGED(e) != ITEMS_CHANGED(S.ev.t)), SV(e, "setevents"))]
    E.stubs[f"{ES}:SetEvents"] = make
    return S, st


def cur(S, s):
    d = s.d(s.f(S.obj, "_data"))
    return lib.dict_to_s(S.E, d) if isinstance(d, (DictC, DictS)) else lib.set_to_s(d)


def monitor(S, st, a, r):
    E = S.E
    now, last = cur(S, st), st.ghost["last"]
    t, i, j = fresh_v("t"), fresh_int("i"), fresh_int("j")
    x = z3.Int("x_mem")

    def ob(name, goal):
        E.obligation(f"items_changed: {name}", st, goal)
    for sq, what, changed in ((a, "added", lambda t: z3.And(now.has(t), z3.Not(last.has(t)))),
                              (r, "removed", lambda t: z3.And(last.has(t), z3.Not(now.has(t))))):
        at = lambda k: lib.key_term(sq.at(k))
        ob(f"every item listed as {what} was {what}", z3.Implies(z3.And(0 <= j, j < sq.zn()), changed(at(j))))
        if sq.items is not None:
            ob(f"every item {what} is listed", z3.Implies(changed(t), z3.Or(*[t == at(k) for k in range(len(sq.items))])))
            ob(f"no item is listed as {what} twice", z3.And(*[at(p) != at(q) for p in range(len(sq.items)) for q in range(p)]))
        else:
            ob(f"every item {what} is listed", z3.Implies(changed(t), z3.Exists([x], z3.And(0 <= x, x < sq.zn(), at(x) == t))))
            ob(f"no item is listed as {what} twice", z3.Implies(z3.And(0 <= i, i < j, j < sq.zn()), at(i) != at(j)))
    ob("something changed", z3.Or(a.zn() > 0, r.zn() > 0))
    return st.g(last=now, nev=mkint(zi(st.ghost["nev"]) + 1))


def has_eq(a, b):
    t = fresh_v("t")
    return a.has(t) == b.has(t)


def done(S, s, what, want=None, nev=None, order=None):
    """contents wanted (fn of an item), all changes announced, at most one event unless said otherwise"""
    U, E = S.U, S.E
    now = cur(S, s)
    t = fresh_v("t")
    if S.cls == "Selection":
        SELECTION["done"](S, s, what, now, nev)
    if want is not None:
        U.oblige(f"{what}: the contents are those of a builtin set", s, now.has(t) == want(t))
    if order is not None and now.pos is not None:
        U.oblige(f"{what}: iteration is in insertion order", s, z3.And(now.n == order.n, lib.same_seq(E, s, now.keys, order.keys)))
    if S.evented:
        U.oblige(f"{what}: every change was announced", s, has_eq(now, s.ghost["last"]))
        U.oblige(f"{what}: events are not held back any longer", s, z3.BoolVal(s.ghost["paused"] is False))
        if nev is not None:
            U.oblige(f"{what}: exactly one event, none when nothing changed", s, zi(s.ghost["nev"]) == nev)


def untouched(S, s, what):
    S.U.oblige(f"{what}: nothing changed and nothing was emitted", s, z3.And(zi(s.ghost["nev"]) == 0, has_eq(cur(S, s), S.d0)))


def frame(S, what, pre, s):
    S.U.frame(what, pre, s, GH | {("d", S.dref.oid)} | (SELECTION["frame"](S) if S.cls == "Selection" else set()))


def item(name="item"):
    return SV(fresh_v(name), "atom")


def meth(S, st, name):
    return BM(S.E.class_attr_fn(st, S.obj, name), S.obj)


def raises(U, s, r, name):
    return z3.BoolVal(U.exc_is(s, r, name) is True)


def if1(c):
    return z3.If(c, 1, 0)


def with_item(S, s, x):
    return lib.dict_set(S.E, s, S.d0, x, None) if ordered(S.cls) else lib.set_add(S.d0, x)


def without_item(S, s, x):
    return lib.dict_del(S.E, s, S.d0, x) if ordered(S.cls) else lib.set_del(S.d0, x)


@unit("C16", "add: the item is in, one exact event unless it was", ["_BaseMutableSet.add", "EventedSet._pre_add_hook", "EventedSet._post_add_hook", "OrderedSet._do_add"])
def u_add(U):
    for cls in ALL:
        S, st = evset(U, cls)
        x = item()
        had = S.d0.has(x.t)
        for kind, s, r in U.run(st, meth(S, st, "add"), [x]):
            U.oblige("add does not fail and returns None", s, z3.BoolVal(kind == "ret" and r is None))
            done(S, s, "add", lambda t: z3.Or(t == x.t, S.d0.has(t)), if1(z3.Not(had)), with_item(S, s, x))
            frame(S, "add", st, s)
        U.must_fail("reachable", st, had)


@unit("C16", "discard: the item is out, one exact event unless it was", ["_BaseMutableSet.discard", "EventedSet._pre_discard_hook", "OrderedSet._do_discard"])
def u_discard(U):
    for cls in ALL:
        for name in ("discard", "remove"):
            S, st = evset(U, cls)
            x = item()
            had = S.d0.has(x.t)
            for kind, s, r in U.run(st, meth(S, st, name), [x]):
                if kind == "raise":
                    U.oblige("only remove fails, exactly for an item that is not there", s, z3.And(z3.BoolVal(name == "remove"), z3.Not(had), raises(U, s, r, "KeyError")))
                    untouched(S, s, "a failing remove")
                    continue
                U.oblige(f"{name} returns None", s, z3.And(z3.BoolVal(r is None), z3.BoolVal(True) if name == "discard" else had))
                now = cur(S, s)
                done(S, s, name, lambda t: z3.And(t != x.t, S.d0.has(t)), if1(had))
                if now.pos is not None:
                    w = without_item(S, s, x)
                    U.oblige(f"{name}: iteration stays in insertion order", s, z3.If(had, z3.And(now.n == w.n, lib.same_seq(U.E, s, now.keys, w.keys)), lib.same_seq(U.E, s, now.keys, S.d0.keys)))
                frame(S, name, st, s)
            U.must_fail("reachable", st, z3.Not(had))


@unit("C16", "pop: an item is returned and out, one exact event; KeyError when empty", ["MutableSet.pop"])
def u_pop(U):
    for cls in ALL:
        S, st = evset(U, cls)
        for kind, s, r in U.run(st, meth(S, st, "pop"), []):
            if kind == "raise":
                U.oblige("pop fails exactly on an empty set", s, z3.And(S.d0.n == 0, raises(U, s, r, "KeyError")))
                untouched(S, s, "a failing pop")
                continue
            rt = lib.key_term(r)
            U.oblige("pop returns an item of the set", s, S.d0.has(rt))
            done(S, s, "pop", lambda t: z3.And(t != rt, S.d0.has(t)), 1)
            frame(S, "pop", st, s)
        U.must_fail("reachable", st, S.d0.n == 0)


@unit("C16", "clear: empty, one exact event unless it was", ["_BaseMutableSet.clear", "EventedSet.clear", "EventedSet._pre_clear_hook"])
def u_clear(U):
    for cls in ALL:
        S, st = evset(U, cls)
        for kind, s, r in U.run(st, meth(S, st, "clear"), []):
            U.oblige("clear does not fail and returns None", s, z3.BoolVal(kind == "ret" and r is None))
            done(S, s, "clear", lambda t: z3.BoolVal(False), if1(S.d0.n > 0))
            frame(S, "clear", st, s)
        U.must_fail("reachable", st, S.d0.n == 0)


@unit("C16", "membership, length, iteration: those of the set, in insertion order when ordered, without any effect",
      ["_BaseMutableSet.__contains__", "_BaseMutableSet.__len__", "_BaseMutableSet.__iter__"])
def u_read(U):
    for cls in ALL:
        S, st = evset(U, cls)
        E = U.E
        x = item()
        for kind, s, r in U.run(st, meth(S, st, "__contains__"), [x]):
            U.oblige("membership is that of the set", s, z3.And(z3.BoolVal(kind == "ret"), (z3.BoolVal(r) if isinstance(r, bool) else zb(r)) == S.d0.has(x.t)))
            U.frame("membership", st, s, set())
        for kind, s, r in U.run(st, meth(S, st, "__len__"), []):
            U.oblige("the length is that of the set", s, z3.And(z3.BoolVal(kind == "ret"), zi(r) == S.d0.n))
            U.frame("length", st, s, set())
        for kind, s, r in U.run(st, meth(S, st, "__iter__"), []):
            outs = lib.iterate(E, s, r, U.ctx(ES)) if kind == "ret" else []
            U.oblige("a set can be iterated", s, z3.BoolVal(bool(outs)))
            for s2, sq in outs:
                U.oblige("iteration yields the items in order", s2, lib.same_seq(E, s2, sq, S.d0.keys))


# ---------------------------------------------------------------- many items

class Rec:
    """The contents after m steps, each adding or discarding one item; with what came in and went out so far.

    Definitional: functions H (membership), N, K, P (order, when ordered), A/LA/PA and R/LR/PR (items that came in and
    went out, with their positions), each defined for m+1 from m."""

    def __init__(self, S, xs, addc=None, delc=None, empty=False):
        self.empty, self.d0 = empty, None
        self.S, self.xs, self.addc, self.delc = S, xs, addc, delc
        self.H = fresh_fun("H", I, V, z3.BoolSort())
        self.N, self.LA, self.LR = (fresh_fun(x, I, I) for x in ("N", "LA", "LR"))
        self.K, self.P = fresh_fun("K", I, I, V), fresh_fun("P", I, V, I)
        self.A, self.R = fresh_fun("A", I, V), fresh_fun("R", I, V)
        self.PA, self.PR = fresh_fun("PA", V, I), fresh_fun("PR", V, I)

    def conds(self, m):
        x = self.xs(m)
        inn = self.H(m, x)
        a = self.addc(m, x, inn) if self.addc else z3.BoolVal(False)
        d = self.delc(m, x, inn) if self.delc else z3.BoolVal(False)
        return x, z3.And(a, z3.Not(inn)), z3.And(d, inn)

    def at(self, m):
        m = zlen(m)
        if ordered(self.S.cls):
            return DictS(lambda t: self.H(m, t), lambda t: None, self.N(m), Seq(self.N(m), lambda j: SV(self.K(m, zlen(j)), "atom")), lambda t: self.P(m, t))
        return SetS(lambda t: self.H(m, t), self.N(m))

    def base(self):
        return self.base_() + (SELECTION["base"](self.S, self) if self.S.cls == "Selection" else [])

    def base_(self):
        d, t, j = self.d0 or self.S.d0, z3.Const("t_rec", V), z3.Int("j_rec")
        if self.empty:
            return [z3.ForAll([t], z3.Not(self.H(0, t)), patterns=[self.H(0, t)]), self.N(0) == 0, self.LA(0) == 0, self.LR(0) == 0]
        out = [z3.ForAll([t], self.H(0, t) == d.has(t), patterns=[self.H(0, t)]), self.N(0) == d.n, self.LA(0) == 0, self.LR(0) == 0]
        if isinstance(d, SetC):
            d = lib.set_to_s(d)
        if ordered(self.S.cls):
            out += [z3.ForAll([j], self.K(0, j) == d.keys.at(j).t, patterns=[self.K(0, j)]), z3.ForAll([t], self.P(0, t) == d.pos(t), patterns=[self.P(0, t)])]
        return out

    def facts(self, m):
        m = zlen(m)
        H, t, j = self.H, z3.Const("t_rec", V), z3.Int("j_rec")
        x, new, gone = self.conds(m)
        out = [z3.ForAll([t], H(m + 1, t) == z3.If(z3.And(t == x, new), True, z3.If(z3.And(t == x, gone), False, H(m, t))), patterns=[H(m + 1, t)]),
               self.N(m + 1) == self.N(m) + if1(new) - if1(gone),
               self.LA(m + 1) == self.LA(m) + if1(new), self.LR(m + 1) == self.LR(m) + if1(gone),
               z3.Implies(new, z3.And(self.A(self.LA(m)) == x, self.PA(x) == self.LA(m))),
               z3.Implies(gone, z3.And(self.R(self.LR(m)) == x, self.PR(x) == self.LR(m)))]
        if self.S.cls == "Selection":
            out += SELECTION["facts"](self.S, self, m, z3.Or(new, gone))
        if ordered(self.S.cls):
            p = self.P(m, x)
            out += [z3.ForAll([j], self.K(m + 1, j) == z3.If(z3.And(new, j == self.N(m)), x, z3.If(z3.And(gone, j >= p), self.K(m, j + 1), self.K(m, j))), patterns=[self.K(m + 1, j)]),
                    z3.ForAll([t], self.P(m + 1, t) == z3.If(z3.And(new, t == x), self.N(m), z3.If(z3.And(gone, self.P(m, t) > p), self.P(m, t) - 1, self.P(m, t))), patterns=[self.P(m + 1, t)])]
        return out

    def inv(self, m, extra=()):
        m = zlen(m)
        H, t, j = self.H, z3.Const("t_inv", V), z3.Int("j_inv")
        out = [("counts", z3.And(self.LA(m) >= 0, self.LR(m) >= 0))]
        if self.addc:
            out += [("what is noted as added came in", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.LA(m)), z3.And(H(m, self.A(j)), z3.Not(H(0, self.A(j))), self.PA(self.A(j)) == j)), patterns=[self.A(j)])),
                    ("what came in is noted as added", z3.ForAll([t], z3.Implies(z3.And(H(m, t), z3.Not(H(0, t))), z3.And(0 <= self.PA(t), self.PA(t) < self.LA(m), self.A(self.PA(t)) == t)), patterns=[H(m, t)]))]
        else:
            out += [("nothing came in", z3.ForAll([t], z3.Implies(H(m, t), H(0, t)), patterns=[H(m, t)])), ("nothing is noted as added", self.LA(m) == 0)]
        if self.delc:
            out += [("what is noted as removed went out", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.LR(m)), z3.And(z3.Not(H(m, self.R(j))), H(0, self.R(j)), self.PR(self.R(j)) == j)), patterns=[self.R(j)])),
                    ("what went out is noted as removed", z3.ForAll([t], z3.Implies(z3.And(H(0, t), z3.Not(H(m, t))), z3.And(0 <= self.PR(t), self.PR(t) < self.LR(m), self.R(self.PR(t)) == t)), patterns=[H(m, t)]))]
        else:
            out += [("nothing went out", z3.ForAll([t], z3.Implies(H(0, t), H(m, t)), patterns=[H(m, t)])), ("nothing is noted as removed", self.LR(m) == 0)]
        return out + list(extra)

    def spec(self, extra=lambda m: ()):
        sel = SELECTION["cands"](self.S, self) if self.S.cls == "Selection" else []
        return {"cands": sel + [self.at, lambda m: Seq(self.LA(zlen(m)), lambda j: SV(self.A(zlen(j)), "atom")), lambda m: Seq(self.LR(zlen(m)), lambda j: SV(self.R(zlen(j)), "atom")),
                          lambda m: mkint(self.LA(zlen(m)) + self.LR(zlen(m)))],
                "facts": self.facts, "inv": lambda s, m: self.inv(m, extra(zlen(m)))}


class Others:
    """the items of all the iterables given, one after the other: n items X(0..n), IN(t) whether t is among them"""

    def __init__(self, U, st):
        E = U.E
        self.n, self.X = fresh_int("n_items"), fresh_fun("X", I, V)
        self.IN, self.W = fresh_fun("among", V, z3.BoolSort()), fresh_fun("where", V, I)
        j, t = z3.Int("j_oth"), z3.Const("t_oth", V)
        self.st = st.assume(self.n >= 0,
                            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), self.IN(self.X(j))), patterns=[self.X(j)]),
                            z3.ForAll([t], z3.Implies(self.IN(t), z3.And(0 <= self.W(t), self.W(t) < self.n, self.X(self.W(t)) == t)), patterns=[self.IN(t)]))
        self.star = fresh_seq("others", cls="items")
        self.st = self.st.assume(self.star.zn() >= 0)
        self.seq = Seq(self.n, lambda k: SV(self.X(zlen(k)), "atom"))

        def chain(E, st, ca, ctx, fn):
            if not ca.pos and ca.star is self.star:
                return [(st, self.seq)]
            if ca.star is not None:
                raise Unsupported("chain of something else than the iterables given")
            outs = [(st, EMPTY)]
            for x in ca.pos:
                outs = [(s2, seq_concat(acc, sq)) for s, acc in outs for s2, sq in lib.iterate(E, s, x, ctx)]
            return outs
        E.stubs["itertools.chain"] = chain
        E.assumptions.add("itertools.chain(*iterables) yields the items of the iterables, one after the other")


def many(S, st, name, rec, n, args, star, what, want, extra=lambda m: (), quals=()):
    U, E = S.U, S.E
    E.loop_specs["*"] = lambda _: rec.spec(extra)
    st = st.assume(*rec.base())
    for kind, s, r in U.run(st, meth(S, st, name), args, None, star):
        if kind == "raise" and S.cls == "Selection" and SELECTION.get("refuses"):
            U.oblige(f"{what}: refused with ValueError", s, raises(U, s, r, "ValueError"))
            done(S, s, f"{what} (refused)")
            frame(S, what, st, s)
            continue
        U.oblige(f"{what} does not fail and returns None", s, z3.BoolVal(kind == "ret" and r is None))
        done(S, s, what, want, if1(rec.LA(n) + rec.LR(n) > 0), rec.at(n))
        frame(S, what, st, s)


@unit("C16", "update: the items of all iterables are added; one exact event, none when nothing changed", ["_BaseMutableSet.update", "EventedSet.update"], timeout=240)
def u_update(U):
    for cls in ALL:
        S, st = evset(U, cls)
        O = Others(U, st)
        rec = Rec(S, lambda m: O.X(zlen(m)), addc=lambda m, x, inn: z3.BoolVal(True))
        j, t = z3.Int("j_x"), z3.Const("t_x", V)

        def extra(m):
            return [("the items seen are in", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m, j < O.n), rec.H(m, O.X(j))), patterns=[O.X(j)])),
                    ("only items seen came in", z3.ForAll([t], z3.Implies(z3.And(rec.H(m, t), m <= O.n), z3.Or(rec.H(0, t), O.IN(t))), patterns=[rec.H(m, t)]))]
        many(S, O.st, "update", rec, O.n, [], O.star, "update", lambda t: z3.Or(S.d0.has(t), O.IN(t)), extra)


@unit("C16", "difference_update: the items of all iterables are discarded; one exact event, none when nothing changed",
      ["_BaseMutableSet.difference_update", "EventedSet.difference_update"], timeout=240)
def u_difference_update(U):
    for cls in ALL:
        S, st = evset(U, cls)
        O = Others(U, st)
        rec = Rec(S, lambda m: O.X(zlen(m)), delc=lambda m, x, inn: z3.BoolVal(True))
        j, t = z3.Int("j_x"), z3.Const("t_x", V)

        def extra(m):
            return [("the items seen are out", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m, j < O.n), z3.Not(rec.H(m, O.X(j)))), patterns=[O.X(j)])),
                    ("only items seen went out", z3.ForAll([t], z3.Implies(z3.And(rec.H(0, t), z3.Not(rec.H(m, t)), m <= O.n), O.IN(t)), patterns=[rec.H(m, t)]))]
        many(S, O.st, "difference_update", rec, O.n, [], O.star, "difference_update", lambda t: z3.And(S.d0.has(t), z3.Not(O.IN(t))), extra)


class Inters:
    """`intersection(*s)` of a builtin set: trusted to keep exactly the items that are in all the iterables given (IN)"""

    def __init__(self, U, st):
        E = U.E
        self.IN = fresh_fun("in_all", V, z3.BoolSort())
        self.star = fresh_seq("others", cls="items")
        self.st = st.assume(self.star.zn() >= 0)

        def inter(E, st, ca, ctx, fn):
            if ca.star is not self.star or len(ca.pos) != 1:
                raise Unsupported("intersection with something else than the iterables given")
            d = st.d(ca.pos[0])
            d = d if isinstance(d, SetS) else lib.set_to_s(d)
            n = fresh_int("n_inter")
            st, ref = E.alloc(st.assume(n >= 0), Ext("builtins.set"), data=SetS(lambda t: z3.And(d.has(t), self.IN(t)), n), kind="set")
            return [(st, ref)]
        E.stubs["set.intersection"] = inter
        E.assumptions.add("set(x).intersection(*iterables) keeps exactly the items of x that are in all of the iterables")


@unit("C16", "intersection_update: the items that are in all iterables are kept; one exact event, none when nothing changed",
      ["_BaseMutableSet.intersection_update", "EventedSet.intersection_update"], timeout=240)
def u_intersection_update(U):
    for cls in ALL:
        S, st = evset(U, cls)
        O = Inters(U, st)
        keys = S.d0.keys
        at = lambda k: keys.at(k).t
        rec = Rec(S, lambda m: at(m), delc=lambda m, x, inn: z3.Not(O.IN(x)))
        j, t = z3.Int("j_x"), z3.Const("t_x", V)

        def extra(m):
            return [("the items seen are in only if they are in all", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m, j < S.d0.n, z3.Not(O.IN(at(j)))), z3.Not(rec.H(m, at(j)))), patterns=[at(j)])),
                    ("only items that are not in all went out", z3.ForAll([t], z3.Implies(z3.And(rec.H(0, t), z3.Not(rec.H(m, t))), z3.Not(O.IN(t))), patterns=[rec.H(m, t)]))]
        many(S, O.st, "intersection_update", rec, S.d0.n, [], O.star, "intersection_update", lambda t: z3.And(S.d0.has(t), O.IN(t)), extra)


class Other:
    """one iterable given: n items X(0..n), IN(t) whether t is among them"""

    def __init__(self, U, st):
        O = Others(U, st)
        self.n, self.X, self.IN, self.W, self.st, self.seq = O.n, O.X, O.IN, O.W, O.st, O.seq


@unit("C16", "symmetric_difference_update: items in both leave, the others come in; one exact event, none when nothing changed",
      ["_BaseMutableSet.symmetric_difference_update", "EventedSet.symmetric_difference_update"], timeout=240)
def u_symmetric_difference_update(U):
    for cls in ALL:
        S, st = evset(U, cls)
        O = Other(U, st)
        E = U.E
        got = {}
        real = lib.FUNCS["builtins.dict.fromkeys"]

        def fromkeys(E, st, ca, ctx, fn):
            outs = real(E, st, ca, ctx)
            for s, r in outs:
                got["d"] = s.d(r)
            return outs
        E.stubs["builtins.dict.fromkeys"] = fromkeys
        E.assumptions.add("dict.fromkeys(items): the distinct items in the order of their first occurrence")
        ext, TK = fresh_int("nx"), fresh_fun("distinct", I, V)
        rec = Rec(S, lambda m: got["d"].keys.at(m).t, addc=lambda m, x, inn: z3.BoolVal(True), delc=lambda m, x, inn: z3.BoolVal(True))
        j, t = z3.Int("j_x"), z3.Const("t_x", V)

        def extra(m):
            d = got["d"]
            at = lambda k: d.keys.at(k).t
            return [("items seen are toggled", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m, j < d.n), rec.H(m, at(j)) == z3.Not(rec.H(0, at(j)))), patterns=[at(j)])),
                    ("only items seen are toggled", z3.ForAll([t], z3.Implies(z3.And(rec.H(m, t) != rec.H(0, t), m <= d.n), z3.And(d.has(t), d.pos(t) < m)), patterns=[rec.H(m, t)]))]
        E.loop_specs["*"] = lambda _: rec.spec(extra)
        st = O.st.assume(*rec.base())
        for kind, s, r in U.run(st, meth(S, st, "symmetric_difference_update"), [O.seq]):
            n = got["d"].n
            what = "symmetric_difference_update"
            U.oblige(f"{what} does not fail and returns None", s, z3.BoolVal(kind == "ret" and r is None))
            done(S, s, what, lambda t: S.d0.has(t) != O.IN(t), if1(rec.LA(n) + rec.LR(n) > 0), rec.at(n))
            frame(S, what, st, s)


@unit("C16", "the changes held back are joined, in order, into one event", ["_reduce_events"])
def u_reduce(U):
    E = U.E
    st = St()
    n = fresh_int("n_changes")
    LEN = [fresh_fun("len_a", I, I), fresh_fun("len_r", I, I)]
    AT = [fresh_fun("item_a", I, I, V), fresh_fun("item_r", I, I, V)]
    TOT = [fresh_fun("total_a", I, I), fresh_fun("total_r", I, I)]
    ALLX = [fresh_fun("all_a", I, V), fresh_fun("all_r", I, V)]
    k, j = z3.Int("k_red"), z3.Int("j_red")
    st = st.assume(n >= 0, *[z3.ForAll([k], L(k) >= 0, patterns=[L(k)]) for L in LEN], *[T(0) == 0 for T in TOT])

    def part(i, m):
        m = zlen(m)
        return Seq(LEN[i](m), lambda q: SV(AT[i](m, zlen(q)), "atom"))
    li = Seq(n, lambda m: (part(0, m), part(1, m)))

    def facts(m):
        m = zlen(m)
        return [f for i in (0, 1) for f in (
            TOT[i](m + 1) == TOT[i](m) + LEN[i](m),
            z3.ForAll([j], z3.Implies(z3.And(TOT[i](m) <= j, j < TOT[i](m + 1)), ALLX[i](j) == AT[i](m, j - TOT[i](m))), patterns=[ALLX[i](j)]))]

    def upto(i):
        return lambda m: Seq(TOT[i](zlen(m)), lambda q: SV(ALLX[i](zlen(q)), "atom"))
    E.loop_specs["*"] = lambda _: {"cands": [upto(0), upto(1)], "facts": facts, "inv": lambda s, m: [("totals", z3.And(TOT[0](zlen(m)) >= 0, TOT[1](zlen(m)) >= 0))]}
    for kind, s, r in U.run(st, f"{ES}:_reduce_events", [li]):
        ok = kind == "ret" and isinstance(r, tuple) and len(r) == 2
        U.oblige("a pair is returned", s, z3.BoolVal(ok))
        if ok:
            for i, what in enumerate(("added", "removed")):
                sq = r[i] if isinstance(r[i], Seq) else Seq.of(r[i])
                U.oblige(f"all the items {what}, in order", s, lib.same_seq(E, s, sq, upto(i)(n)))
        U.frame("_reduce_events", st, s, set())
    U.must_fail("reachable", st, n == 0)


# ---------------------------------------------------------------- new sets

def filled(E, st, cls, sq):
    """(st, payload) what `_data` of a new set holds, built from the items sq: each item once, by first occurrence"""
    if ordered(cls):
        outs = lib.FUNCS["builtins.dict.fromkeys"](E, st, CallArgs([sq]), None)
    else:
        outs = lib.make_set(E, st, sq, None)
    (st, ref), = outs
    return st, st.d(ref)


def constructor(S, cls, mod=ES):
    """the contract of cls(iterable): proved by 'a new set holds the items given' below"""
    E = S.E
    S.made, S.on_made = [], None

    def new(E, st, ca, ctx, c):
        if ca.star is not None or ca.kw or len(ca.pos) > 1:
            raise Unsupported("a set made from something else than one iterable")
        out = []
        for s, sq in (lib.iterate(E, st, ca.pos[0], ctx) if ca.pos else [(st, EMPTY)]):
            s, d = filled(E, s, cls, sq)
            s, dref = E.alloc(s, Ext("builtins.dict" if ordered(cls) else "builtins.set"), data=d, kind="dict" if ordered(cls) else "set")
            e = SV(fresh_v("newevents"), "setevents")
            s = s.assume(e.t != S.ev.t, ITEMS_CHANGED(e.t) != ITEMS_CHANGED(S.ev.t))
            s, o = E.alloc(s, E.loader.cls(mod, cls), {"_data": dref, **({"events": e} if S.evented else {})})
            S.made.append((o, d, sq))
            if S.on_made:
                s = S.on_made(s, d)
            out.append((s, o))
        return out
    E.stubs[f"{mod}:{cls}"] = new


@unit("C16", "a copy is a new set of the same class with the same items in the same order", ["_BaseMutableSet.copy", "_BaseMutableSet.__copy__"])
def u_copy(U):
    for cls in ALL:
        for name in ("copy", "__copy__"):
            S, st = evset(U, cls)
            constructor(S, cls)
            for kind, s, r in U.run(st, meth(S, st, name), []):
                is_new(S, s, kind, r, st, name, lambda t: S.d0.has(t))
                d = s.d(s.f(r, "_data"))
                if ordered(cls):
                    U.oblige("a copy keeps the order", s, lib.same_seq(U.E, s, d.keys, S.d0.keys))


def is_new(S, s, kind, r, pre, what, want):
    U, E = S.U, S.E
    ok = kind == "ret" and isinstance(r, Ref) and r.oid != S.obj.oid and s.obj(r).cls is E.loader.cls(ES, S.cls)
    U.oblige(f"{what} returns a new set of the same class", s, z3.BoolVal(ok))
    if ok:
        dref = s.f(r, "_data")
        U.oblige(f"{what}: the new set does not share its storage", s, z3.BoolVal(isinstance(dref, Ref) and dref.oid != S.dref.oid))
        d = s.d(dref)
        d = lib.dict_to_s(E, d) if isinstance(d, (DictC, DictS)) else lib.set_to_s(d)
        t = fresh_v("t")
        U.oblige(f"{what}: only items of the builtin operation", s, z3.Implies(d.has(t), want(t)))
        U.oblige(f"{what}: all items of the builtin operation", s, z3.Implies(want(t), d.has(t)))
        U.oblige(f"{what}: the set itself is untouched", s, has_eq(cur(S, s), S.d0))
        U.frame(what, pre, s, set())


@unit("C16", "difference and intersection: a new set with the items of the builtin operation", ["_BaseMutableSet.difference", "_BaseMutableSet.intersection"])
def u_difference(U):
    for cls in ALL:
        S, st = evset(U, cls)
        O = Others(U, st)
        constructor(S, cls)
        for kind, s, r in U.run(O.st, meth(S, st, "difference"), [], None, O.star):
            is_new(S, s, kind, r, st, "difference", lambda t: z3.And(S.d0.has(t), z3.Not(O.IN(t))))
            same_order(S, s, r, "difference")
        S, st = evset(U, cls)
        O = Inters(U, st)
        constructor(S, cls)
        for kind, s, r in U.run(O.st, meth(S, st, "intersection"), [], None, O.star):
            is_new(S, s, kind, r, st, "intersection", lambda t: z3.And(S.d0.has(t), O.IN(t)))
            same_order(S, s, r, "intersection")


def same_order(S, s, r, what):
    if ordered(S.cls):
        d = s.d(s.f(r, "_data"))
        a, b = fresh_v("a"), fresh_v("b")
        S.U.oblige(f"{what}: the items keep their order", s, z3.Implies(z3.And(d.has(a), d.has(b), d.pos(a) < d.pos(b)), S.d0.pos(a) < S.d0.pos(b)))


@unit("C16", "a new set holds the items given, each once, in order of first occurrence; nothing is announced for it",
      ["_BaseMutableSet.__init__", "EventedSet.__init__", "OrderedSet.__init__", "EventedOrderedSet.__init__"], timeout=240)
def u_init(U):
    for cls in ALL:
        E = U.E
        S, st = evset(U, cls)
        O = Other(U, st)
        rec = Rec(S, lambda m: O.X(zlen(m)), addc=lambda m, x, inn: z3.BoolVal(True), empty=True)
        j, t = z3.Int("j_x"), z3.Const("t_x", V)

        def extra(m):
            return [("the items seen are in", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m, j < O.n), rec.H(m, O.X(j))), patterns=[O.X(j)])),
                    ("only items seen came in", z3.ForAll([t], z3.Implies(z3.And(rec.H(m, t), m <= O.n), O.IN(t)), patterns=[rec.H(m, t)]))]
        E.loop_specs["*"] = lambda _: rec.spec(extra)
        st = O.st.assume(*rec.base())
        for kind, s, r in E_new(U, st, cls, [O.seq]):
            S.obj = r
            now = cur(S, s)
            x = fresh_v("t")
            U.oblige("the items are those given", s, now.has(x) == O.IN(x))
            if now.pos is not None:
                want = rec.at(O.n)
                U.oblige("in order of first occurrence", s, z3.And(now.n == want.n, lib.same_seq(E, s, now.keys, want.keys)))
        U.must_fail("reachable", st, O.n == 0)


def E_new(U, st, cls, args, mod=ES):
    E = U.E
    ctx = U.ctx(mod)
    outs = [("ret", s, r) for s, r in E.instantiate(st, E.loader.cls(mod, cls), CallArgs(list(args)), ctx)]
    U.oblige("a set can be made from any iterable", st, z3.BoolVal(bool(outs)))
    for s, e in ctx.sink:
        U.oblige("a set can be made from any iterable", s, z3.BoolVal(False))
    return outs


@unit("C16", "union and symmetric difference: a new set with the items of the builtin operation", ["_BaseMutableSet.union", "_BaseMutableSet.symmetric_difference"], timeout=240)
def u_union(U):
    for cls in ALL:
        E = U.E
        S, st = evset(U, cls)
        O = Others(U, st)
        constructor(S, cls)
        rec = Rec(S, lambda m: O.X(zlen(m)), addc=lambda m, x, inn: z3.BoolVal(True))
        j, t = z3.Int("j_x"), z3.Const("t_x", V)

        def extra(m):
            return [("the items seen are in", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m, j < O.n), rec.H(m, O.X(j))), patterns=[O.X(j)])),
                    ("only items seen came in", z3.ForAll([t], z3.Implies(z3.And(rec.H(m, t), m <= O.n), z3.Or(rec.H(0, t), O.IN(t))), patterns=[rec.H(m, t)]))]

        def on_made(s, d):
            rec.d0 = d
            return s.assume(*rec.base())
        S.on_made = on_made
        E.loop_specs[f"{ES}:_BaseMutableSet.update"] = lambda _: rec.spec(extra)
        for kind, s, r in U.run(O.st, meth(S, st, "union"), [], None, O.star):
            is_new(S, s, kind, r, st, "union", lambda t: z3.Or(S.d0.has(t), O.IN(t)))
            U.oblige("one new set is made", s, z3.BoolVal(len(S.made) == 1))
            if ordered(cls):
                d, w = s.d(s.f(r, "_data")), rec.at(O.n)
                U.oblige("union: the items of the set first, then the others", s, z3.And(d.n == w.n, lib.same_seq(E, s, d.keys, w.keys)))
        S, st = evset(U, cls)
        O = Other(U, st)
        constructor(S, cls)
        for kind, s, r in U.run(O.st, meth(S, st, "symmetric_difference"), [O.seq]):
            is_new(S, s, kind, r, st, "symmetric_difference", lambda t: S.d0.has(t) != O.IN(t))


@unit("C16", "issubset, issuperset: those of a builtin set, without any effect", ["_BaseMutableSet.issubset", "_BaseMutableSet.issuperset"])
def u_subset(U):
    for cls in ALL:
        S, st = evset(U, cls)
        O = Other(U, st)
        for name, c in (("issubset", lambda t: z3.Implies(S.d0.has(t), O.IN(t))), ("issuperset", lambda t: z3.Implies(O.IN(t), S.d0.has(t)))):
            for kind, s, r in U.run(O.st, meth(S, st, name), [O.seq]):
                U.oblige(f"{name} returns a truth value", s, z3.BoolVal(kind == "ret" and isinstance(r, (bool, SBool))))
                t = z3.Const("t_all", V)
                pat = S.d0.has(t) if name == "issubset" else O.IN(t)
                b = z3.BoolVal(r) if isinstance(r, bool) else zb(r)
                U.oblige(f"{name}: exactly when it is so", s, b == z3.ForAll([t], c(t), patterns=[pat]))
                U.frame(name, st, s, set())


# ---------------------------------------------------------------- operators (the mixins of collections.abc, run from their source)

def operand(U, st, kind):
    """(O, st, value) the other operand: a builtin set, or some other iterable"""
    O = Other(U, st)
    if kind == "iterable":
        return O, O.st, O.seq
    st = O.st
    j, k = z3.Int("j_op"), z3.Int("k_op")
    st = st.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < O.n), O.X(j) != O.X(k)), patterns=[z3.MultiPattern(O.X(j), O.X(k))]))
    st, ref = U.E.alloc(st, Ext("builtins.set"), data=SetS(lambda t: O.IN(t), O.n, O.seq), kind="set")
    return O, st, ref


@unit("C16", "|=, -=: the builtin operation in place, one exact event per item", ["MutableSet.__ior__", "MutableSet.__isub__"], timeout=240)
def u_inplace(U):
    for cls in ALL:
        for other in ("set", "iterable"):
            for op in ("__ior__", "__isub__"):
                E = U.E
                S, st = evset(U, cls)
                O, st, arg = operand(U, st, other)
                add = op == "__ior__"
                always = lambda m, x, inn: z3.BoolVal(True)
                rec = Rec(S, lambda m: O.X(zlen(m)), **({"addc": always} if add else {"delc": always}))
                j, t = z3.Int("j_x"), z3.Const("t_x", V)

                def extra(m):
                    return [("the items seen are done", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m, j < O.n), rec.H(m, O.X(j)) == add), patterns=[O.X(j)])),
                            ("only items seen are touched", z3.ForAll([t], z3.Implies(z3.And(rec.H(m, t) != rec.H(0, t), m <= O.n), O.IN(t)), patterns=[rec.H(m, t)]))]
                E.loop_specs["*"] = lambda _: rec.spec(extra)
                st = st.assume(*rec.base())
                for kind, s, r in U.run(st, meth(S, st, op), [arg]):
                    U.oblige(f"{op} returns the set itself", s, z3.BoolVal(kind == "ret" and r == S.obj))
                    done(S, s, op, lambda t: z3.Or(S.d0.has(t), O.IN(t)) if add else z3.And(S.d0.has(t), z3.Not(O.IN(t))), rec.LA(O.n) + rec.LR(O.n), rec.at(O.n))
                    frame(S, op, st, s)


@unit("C16", "s -= s and s ^= s empty the set, with one exact event", ["MutableSet.__isub__", "MutableSet.__ixor__"])
def u_inplace_self(U):
    for cls in ALL:
        for op in ("__isub__", "__ixor__"):
            S, st = evset(U, cls)
            for kind, s, r in U.run(st, meth(S, st, op), [S.obj]):
                U.oblige(f"{op} with itself returns the set itself", s, z3.BoolVal(kind == "ret" and r == S.obj))
                done(S, s, op, lambda t: z3.BoolVal(False), if1(S.d0.n > 0))
                frame(S, op, st, s)


@unit("C16", "&=, ^=: the builtin operation in place, one exact event per item", ["MutableSet.__iand__", "MutableSet.__ixor__", "Set.__sub__"], timeout=300)
def u_inplace2(U):
    for cls in ALL:
        for other in ("set", "iterable"):
            for op in ("__iand__", "__ixor__"):
                E = U.E
                S, st = evset(U, cls)
                O, st, arg = operand(U, st, other)
                constructor(S, cls)
                conj = op == "__iand__"
                always = lambda m, x, inn: z3.BoolVal(True)

                def src():
                    """the items gone through"""
                    return lib.dict_to_s(E, S.made[-1][1]) if S.made and isinstance(S.made[-1][1], (DictC, DictS)) else S.made[-1][1] if S.made else None

                def xs(m):
                    d = src()
                    return O.X(zlen(m)) if d is None else seq_of(d).at(zlen(m)).t

                def seq_of(d):
                    return d.keys if d.keys is not None else S.order

                def on_made(s, d):
                    if isinstance(d, SetS) and d.keys is None:
                        s, f, idx = lib.keys_order(s, d.has, d.n, "made_order")
                        d.keys, d.pos = Seq(d.n, lambda k: SV(f(zlen(k)), "atom")), None
                    return s
                S.on_made = on_made
                rec = Rec(S, xs, **({} if conj else {"addc": always}), delc=always)
                j, t = z3.Int("j_x"), z3.Const("t_x", V)

                def extra(m):
                    n = seq_of(src()).zn() if src() is not None else O.n
                    has = src().has if src() is not None else O.IN
                    return [("each item seen is a change", z3.Implies(m <= n, rec.LA(m) + rec.LR(m) == m)),
                            ("the items seen are done", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m, j < n), z3.And(rec.H(m, xs(j)) == z3.Not(rec.H(0, xs(j))))), patterns=[xs(j)])),
                            ("only items seen are touched", z3.ForAll([t], z3.Implies(z3.And(rec.H(m, t) != rec.H(0, t), m <= n), z3.Exists([j], z3.And(0 <= j, j < m, xs(j) == t))), patterns=[rec.H(m, t)]))]
                for q in ("_collections_abc:MutableSet.__iand__", "_collections_abc:MutableSet.__ixor__", "collections.abc:MutableSet.__iand__", "collections.abc:MutableSet.__ixor__"):
                    E.loop_specs[q] = lambda _: rec.spec(extra)
                st = st.assume(*rec.base())
                for kind, s, r in U.run(st, meth(S, st, op), [arg]):
                    n = seq_of(src()).zn() if src() is not None else O.n
                    U.oblige(f"{op} returns the set itself", s, z3.BoolVal(kind == "ret" and r == S.obj))
                    done(S, s, op, lambda t: z3.And(S.d0.has(t), O.IN(t)) if conj else S.d0.has(t) != O.IN(t), rec.LA(n) + rec.LR(n), rec.at(n))
                    frame(S, op, st, s)


def pydantic_field(U, mod, names, keeps, nargs):
    """A container as the field of a pydantic model.  Contract of pydantic_core: `list_schema(items)` / `set_schema(items)` /
    `dict_schema(keys, values)` check each item and give a list (set, dict) of the results, the items of a list and a dict in
    the order given; `no_info_after_validator_function(f, schema)` gives f(what schema gives)."""
    E = U.E
    E.assumptions.add("pydantic_core's list_schema and dict_schema keep the order of the items, set_schema need not; no_info_after_validator_function hands the checked value to the function")
    for nm in names:
        cls = E.loader.cls(mod, nm)
        for n in range(nargs + 1):
            st = St()
            src, handler = SV(fresh_v("source_type"), "typ"), SV(fresh_v("handler"), "handler")
            args = tuple(SV(fresh_v(f"arg{k}"), "typ") for k in range(n))
            H = fresh_fun("handled", V, V)
            made = {}
            E.stubs["typing.get_args"] = lambda E, st, ca, ctx, fn: (E.obligation("the arguments are those of the annotation", st, lib.same(E, st, ca.pos[0], src)), [(st, args)])[1]
            E.schema[("handler", "()")] = lambda E, st, f, ca, ctx: [(st, SV(H(to_term(ca.pos[0])), "coreschema"))]

            def schema(kind, params):
                def h(E, st, ca, ctx, fn):
                    r = SV(fresh_v(kind), "coreschema")
                    made[r.t.get_id()] = (r, kind, dict(zip(params, ca.pos), **ca.kw))
                    return [(st.assume(lib.is_object(r.t)), r)]
                E.stubs[f"pydantic_core.core_schema.{kind}"] = h
            for kind, params in (("list_schema", ("items_schema",)), ("set_schema", ("items_schema",)), ("frozenset_schema", ("items_schema",)), ("tuple_variable_schema", ("items_schema",)), ("dict_schema", ("keys_schema", "values_schema")), ("no_info_after_validator_function", ("function", "schema")), ("any_schema", ())):
                schema(kind, params)

            def init(E, st, ca, ctx, fn):
                s2, e = E.new_exc(st.g(init="refused"), exc_cls(E, "TypeError"), ())
                ctx.sink.append((s2, e))
                return [(st.g(init=st.ghost["init"] + ((ca.pos[0], ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("iterable", ca.kw.get("data"))),)), None)]
            found = E.class_lookup(cls, "__init__")
            E.stubs[f"{found[0].mod.name}:{found[0].name}.__init__"] = init
            [(st, f)] = E.getattr(st, cls, "__get_pydantic_core_schema__", None)
            what = f"{nm}[{n} arguments]"

            def items(s, x, k):
                """the schema of the k-th argument: what the handler gives for it, or none"""
                if k < n:
                    return z3.BoolVal(False) if x is None else lib.same(E, s, x, SV(H(args[k].t), "coreschema"))
                return z3.BoolVal(x is None or isinstance(x, SV) and made.get(x.t.get_id(), (0, 0))[1] == "any_schema")

            for kind, s, v in U.run(st, f, [src, handler]):
                U.oblige(f"{what}: making the schema does not fail", s, z3.BoolVal(kind == "ret"))
                if kind != "ret":
                    continue
                top = made.get(v.t.get_id()) if isinstance(v, SV) else None
                if top is None or top[1] not in ("no_info_after_validator_function",):
                    raise Unsupported("another form of schema")
                fr = top[2]
                checked = SV(fresh_v("checked"), "atom")
                for k2, s2, v2 in U.run(s.g(init=()), fr["function"], [checked]):
                    if k2 != "ret":         # the constructor refuses the items: so does validation
                        U.oblige(f"{what}: validation fails only where the class refuses the items", s2, z3.BoolVal(s2.ghost["init"] == "refused"))
                        U.oblige(f"{what}: items which the class refuses are not valid", s2, z3.Or(U.exc_is(s2, v2, "ValueError"), U.exc_is(s2, v2, "TypeError")))
                        continue
                    init = s2.ghost["init"]
                    U.oblige(f"{what}: the container is made by the class, of the checked items", s2, z3.And(z3.BoolVal(isinstance(v2, Ref) and s2.obj(v2).cls is cls and len(init) == 1), *([lib.same(E, s2, init[0][0], v2), lib.same(E, s2, init[0][1], checked)] if len(init) == 1 else [])))
                    U.frame(what + " validating", s, s2, {("g", "init")})
                inner = made.get(fr["schema"].t.get_id()) if isinstance(fr.get("schema"), SV) else None
                if inner is None or set(inner[2]) - {"items_schema", "keys_schema", "values_schema"}:
                    raise Unsupported("another form of schema")
                U.oblige(f"{what}: what is checked has the items in the order given", s, z3.BoolVal(inner[1] in keeps[nm]))
                if inner[1] == "dict_schema":
                    U.oblige(f"{what}: keys and values are checked as the annotation says", s, z3.And(items(s, inner[2].get("keys_schema"), 0), items(s, inner[2].get("values_schema"), 1)))
                else:
                    U.oblige(f"{what}: items are checked as the annotation says", s, items(s, inner[2].get("items_schema"), 0))
                U.frame(what, st, s, set())
            U.must_fail("satisfiable", st, z3.BoolVal(False))


@unit("C16", "a set that is a field of a pydantic model is made of the checked items, an ordered one in the order given", ["_BaseMutableSet.__get_pydantic_core_schema__"])
def u_pydantic_set(U):
    seq = ("list_schema", "tuple_variable_schema")
    pydantic_field(U, ES, ALL, {"EventedSet": seq + ("set_schema", "frozenset_schema"), "EventedOrderedSet": seq, "OrderedSet": seq}, 1)


@unit("C13", "a list that is a field of a pydantic model is made of the checked items, in the order given", ["EventedList.__get_pydantic_core_schema__"])
def u_pydantic_list(U):
    pydantic_field(U, "psygnal.containers._evented_list", ["EventedList"], {"EventedList": ("list_schema", "tuple_variable_schema")}, 1)


@unit("C15", "a dict that is a field of a pydantic model is made of the checked keys and values, in the order given", ["TypedMutableMapping.__get_pydantic_core_schema__"])
def u_pydantic_dict(U):
    pydantic_field(U, "psygnal.containers._evented_dict", ["TypedMutableMapping", "EventedDict"], {k: ("dict_schema",) for k in ("TypedMutableMapping", "EventedDict")}, 2)
