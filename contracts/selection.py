"""C17: Selection, SelectableEventedList.

Invariant of a selection (INV): its active item is the selected one when exactly one item is selected, otherwise None.  Every
operation of the set (contracts/evset.py, the same contracts run again on Selection's own hooks) establishes it through
`_update_active`, whose contract is proved here.  None is not an item.  Items are taken up to equality."""
from .common import *
from . import evset
from .evset import GH, SS, cur, done, frame, item, meth, raises, untouched, if1

SEL = "psygnal.containers._selection"
SLL = "psygnal.containers._selectable_evented_list"
I = z3.IntSort()


def act(d):
    """the active item a selection with contents d must have"""
    return z3.If(d.n == 1, lib.key_term(d.keys.at(0)), V.none)


def pre(S, st):
    E = S.E
    S.PIN = fresh_fun("in_parent", V, z3.BoolSort())
    t, j = z3.Const("t_p", V), z3.Int("j_p")
    S.parent = SV(fresh_v("parent"), "parent")
    S.active0, S.current0 = fresh_v("active"), fresh_v("current")
    if SELECTION.get("inv", True):
        st = st.assume(S.active0 == act(S.d0))
    st = st.assume(S.parent.t != V.none, z3.Not(S.d0.has(V.none)),
                   z3.ForAll([j], lib.key_term(S.d0.keys.at(j)) != V.none, patterns=[lib.key_term(S.d0.keys.at(j))]))
    if not SELECTION.get("refuses"):
        st = st.assume(z3.ForAll([t], S.PIN(t), patterns=[S.PIN(t)]))
    E.schema[("parent", "in")] = lambda E, st, c, x, ctx=None: [(st, S.PIN(to_term(x)))]
    for nm in ("active", "_current"):
        E.schema[("setevents", nm)] = lambda E, st, v, ctx, nm=nm: [(st, SV(EVT(nm)(v.t), "setevt:" + nm))]
        E.schema[("setevt:" + nm, "emit")] = lambda E, st, v, ctx, nm=nm: [(st, Partial(Ext("setevt.emit." + nm), [v], {}))]
        E.stubs["setevt.emit." + nm] = lambda E, st, ca, ctx, fn, nm=nm: said(S, st, ca, nm)
    E.stubs[f"{SEL}:Selection._update_active"] = update_active(S)
    return st, {"_active": SV(S.active0), "_current_": SV(S.current0), "_parent": S.parent}, SEL


def EVT(nm):
    return z3.Function("event_" + nm, V, V)


def said(S, st, ca, nm):
    if len(ca.pos) != 2 or ca.star is not None or ca.kw:
        raise Unsupported("event with other arguments")
    S.E.obligation(f"the {nm} event says the item it is now", st, to_term(ca.pos[1]) == to_term(st.f(S.obj, "_active" if nm == "active" else "_current_")))
    return [(st.g(**{"said_" + nm: to_term(ca.pos[1])}), None)]


def update_active(S):
    """contract of _update_active (proved by u_update_active)"""
    def h(E, st, ca, ctx, fn):
        a = act(cur(S, st))
        c = z3.If(z3.And(a != V.none, a != to_term(st.f(S.obj, "_active"))), a, to_term(st.f(S.obj, "_current_")))
        return [(st.setf(S.obj, "_active", SV(a)).setf(S.obj, "_current_", SV(c)), None)]
    return h


def post(S, s, what, now, nev):
    a = to_term(s.f(S.obj, "_active"))
    if SELECTION.get("inv", True):
        S.U.oblige(f"{what}: an only item is active, otherwise none is", s, a == act(now))
    else:
        S.U.oblige(f"{what}: an only item is active, otherwise none is, when anything changed", s, a == z3.If((z3.IntVal(nev) if isinstance(nev, int) else nev) > 0, act(now), S.active0))


def act_at(rec, m):
    a = z3.If(rec.N(m) == 1, rec.K(m, 0), V.none)
    return a if SELECTION.get("inv", True) else z3.If(rec.LA(m) + rec.LR(m) > 0, a, rec.S.active0)


def base(S, rec):
    rec.C = fresh_fun("current", I, V)
    return [rec.C(0) == S.current0]


def facts(S, rec, m, changed):
    a, b = act_at(rec, m), act_at(rec, m + 1)
    return [rec.C(m + 1) == z3.If(z3.And(changed, b != V.none, b != a), b, rec.C(m))]


SELECTION = evset.SELECTION
SELECTION.update(base=base, facts=facts, cands=lambda S, rec: [lambda m: SV(act_at(rec, zlen(m))), lambda m: SV(rec.C(zlen(m)))])
SELECTION.update(pre=pre, done=post, frame=lambda S: {("f", S.obj.oid, "_active"), ("f", S.obj.oid, "_current_"), ("g", "said_active"), ("g", "said__current")})


def on_selection(fn, refuses=False, invs=(True,)):
    """the contract of the set operation, for a Selection: in a state satisfying INV, and in any state (as while the
    `active` setter runs)"""
    def run(U):
        old = evset.ALL
        evset.ALL = ("Selection",)
        SELECTION["refuses"] = refuses
        try:
            for inv in invs:
                SELECTION["inv"] = inv
                fn(U)
        finally:
            evset.ALL = old
            SELECTION["refuses"], SELECTION["inv"] = False, True
    run.__module__ = __name__
    return run


@unit("C17", "the active item is made the only selected one, or none; each change of it is announced, and of the current item", ["Selection._update_active", "Selection._current"])
def u_update_active(U):
    E = U.E
    S, st = evset.evset(U, "Selection")
    del E.stubs[f"{SEL}:Selection._update_active"]
    a0 = fresh_v("was_active")
    st = st.setf(S.obj, "_active", SV(a0)).g(said_active=a0, said__current=S.current0)
    for kind, s, r in U.run(st, meth(S, st, "_update_active"), []):
        U.oblige("it does not fail", s, z3.BoolVal(kind == "ret" and r is None))
        a, c = to_term(s.f(S.obj, "_active")), to_term(s.f(S.obj, "_current_"))
        now = act(S.d0)
        U.oblige("an only item is active, otherwise none is", s, a == now)
        U.oblige("the active item has been announced", s, s.ghost["said_active"] == a)
        U.oblige("an item that becomes active is current, otherwise the current item stays", s, c == z3.If(z3.And(now != V.none, now != a0), now, S.current0))
        U.oblige("the current item has been announced", s, s.ghost["said__current"] == c)
        untouched(S, s, "updating the active item")
        U.frame("_update_active", st, s, {("f", S.obj.oid, "_active"), ("f", S.obj.oid, "_current_"), ("g", "said_active"), ("g", "said__current")})
    U.must_fail("reachable", st, S.d0.n == 1)


for name, fn, targets in (("add", evset.u_add, ["Selection._pre_add_hook", "Selection._emit_change"]), ("discard, remove", evset.u_discard, ["Selection._emit_change"]),
                          ("pop", evset.u_pop, ["Selection._emit_change"]), ("clear", evset.u_clear, ["Selection.clear", "Selection._emit_change"]),
                          ("update", evset.u_update, ["Selection._emit_change"]), ("difference_update", evset.u_difference_update, ["Selection._emit_change"]),
                          ("intersection_update", evset.u_intersection_update, ["Selection._emit_change"]),
                          ("symmetric_difference_update", evset.u_symmetric_difference_update, ["Selection._emit_change"])):
    unit("C17", f"{name} on a selection: as on a set, and an only item is active afterwards", targets, timeout=240)(on_selection(fn, invs=(True, False)))

unit("C17", "update of a selection with an item outside the parent: refused with ValueError, an only item is active, all changes announced",
     ["Selection._pre_add_hook"], timeout=240)(on_selection(evset.u_update, True))


# ---------------------------------------------------------------- operations made of those

def single(E, st, ca):
    """the one item of the set given"""
    if len(ca.pos) != 2 or ca.star is not None or ca.kw or not isinstance(ca.pos[1], Ref):
        raise Unsupported("set operation with other arguments than one set")
    d = st.d(ca.pos[1])
    if not (isinstance(d, SetC) and len(d.items) == 1):
        raise Unsupported(f"set operation with {d!r}")
    return d.items[0]


def changed_to(S, st, d, c):
    """contents d now, announced if changed (c); the active item follows"""
    st = st.setd(S.dref, d)
    a = z3.If(c, act(d), to_term(st.f(S.obj, "_active")))
    g = st.ghost
    last = g["last"]
    now = DictS(lambda t: z3.If(c, d.has(t), last.has(t)), lambda t: None, z3.If(c, d.n, last.n))
    st = st.setf(S.obj, "_active", SV(a, "atom")).setf(S.obj, "_current_", SV(fresh_v("current"), "atom"))
    return st.g(last=now, nev=mkint(zi(g["nev"]) + if1(c)), said_active=z3.If(c, act(d), g["said_active"]), said__current=to_term(st.f(S.obj, "_current_")))


def composed(U):
    """a selection; intersection_update, symmetric_difference_update with one item and add, clear by their contracts (proved above)"""
    E = U.E
    SELECTION["refuses"], SELECTION["inv"] = True, True
    try:
        S, st = evset.evset(U, "Selection")
    finally:
        SELECTION["refuses"] = False
    st = st.setf(S.obj, "_active", SV(S.active0, "atom")).setf(S.obj, "_current_", SV(S.current0, "atom"))
    st = st.g(said_active=S.active0, said__current=S.current0)

    def inter(E, st, ca, ctx, fn):
        v = single(E, st, ca)
        d, t = cur(S, st), to_term(v)
        n = if1(d.has(t))
        new = DictS(lambda x: z3.And(x == t, d.has(t)), lambda x: None, n, Seq(n, lambda k: SV(t, "atom")), lambda x: z3.IntVal(0))
        return [(changed_to(S, st, new, d.n != n), None)]

    def refused(E, st, ctx):
        s, e = E.new_exc(st, exc_cls(E, "builtins.ValueError"), ())
        ctx.sink.append((s, e))

    def add(E, st, ca, ctx, fn):
        v = ca.pos[1]
        out = []
        for s, ok in E.split(st, S.PIN(to_term(v))):
            if not ok:
                refused(E, s, ctx)
                continue
            d = cur(S, s)
            for s2, there in E.split(s, d.has(to_term(v))):
                out.append((s2 if there else changed_to(S, s2, lib.dict_set(E, s2, d, v, None), z3.BoolVal(True)), None))
        return out

    def symm(E, st, ca, ctx, fn):
        v = single(E, st, ca)
        d = cur(S, st)
        out = []
        for s, there in E.split(st, d.has(to_term(v))):
            if there:
                out.append((changed_to(S, s, lib.dict_del(E, s, d, v), z3.BoolVal(True)), None))
                continue
            for s2, ok in E.split(s, S.PIN(to_term(v))):
                if ok:
                    out.append((changed_to(S, s2, lib.dict_set(E, s2, d, v, None), z3.BoolVal(True)), None))
                else:
                    refused(E, s2, ctx)
        return out
    E.stubs[f"{evset.ES}:EventedSet.intersection_update"] = inter
    E.stubs[f"{evset.ES}:EventedSet.symmetric_difference_update"] = symm
    E.stubs[f"{evset.ES}:_BaseMutableSet.add"] = add
    return S, st


def sound(S, s, what):
    """INV, everything announced"""
    U = S.U
    U.oblige(f"{what}: an only item is active, otherwise none is", s, to_term(s.f(S.obj, "_active")) == act(cur(S, s)))
    U.oblige(f"{what}: the active item has been announced", s, s.ghost["said_active"] == to_term(s.f(S.obj, "_active")))
    U.oblige(f"{what}: the current item has been announced", s, s.ghost["said__current"] == to_term(s.f(S.obj, "_current_")))
    done(S, s, what)


@unit("C17", "select_only: the item is the only one selected; toggle: it is selected unless it was; items outside the parent are refused", ["Selection.select_only", "Selection.toggle"])
def u_select_only(U):
    for op in ("select_only", "toggle"):
        S, st = composed(U)
        x = item()
        st = st.assume(x.t != V.none)
        for kind, s, r in U.run(st, meth(S, st, op), [x]):
            sound(S, s, op if kind == "ret" else f"{op} (refused)")
            now, t = cur(S, s), fresh_v("t")
            had = S.d0.has(x.t)
            if kind == "raise":
                U.oblige(f"{op}: only an item outside the parent is refused, with ValueError", s, z3.And(raises(U, s, r, "ValueError"), z3.Not(S.PIN(x.t))))
                U.oblige(f"{op}: a refused item is not selected by it", s, z3.Implies(now.has(t), S.d0.has(t)))
                continue
            U.oblige(f"{op}: an item outside the parent is not selected", s, z3.Implies(z3.And(now.has(t), z3.Not(S.d0.has(t))), S.PIN(t)))
            want = (t == x.t) if op == "select_only" else z3.If(t == x.t, z3.Not(had), S.d0.has(t))
            U.oblige(f"{op}: exactly what its description says is selected", s, now.has(t) == want)
            frame(S, op, st, s)
        U.must_fail("reachable", st, S.d0.has(x.t))


@unit("C17", "setting the active item selects it alone (None: nothing), announces it, makes it current; an item outside the parent is refused and nothing changes",
      ["Selection.active", "Selection._current", "Selection.select_only", "Selection.clear", "Selection._pre_add_hook"])
def u_active(U):
    E = U.E
    for none in (False, True):
        S, st = composed(U)
        x = None if none else item()
        xt = to_term(x)
        if not none:
            st = st.assume(xt != V.none)
        SELECTION["inv"] = True

        def body(s, what="setting active"):
            ctx = U.ctx(SEL)
            outs = E.setattr(s, S.obj, "active", x, ctx)
            return [("ret", s2, None) for s2 in outs] + [("raise", s2, e) for s2, e in ctx.sink]
        for kind, s, r in body(st):
            what = "active = None" if none else "active = item"
            now, t = cur(S, s), fresh_v("t")
            same = S.active0 == xt
            if kind == "raise":
                U.oblige(f"{what}: only an item outside the parent is refused, with ValueError", s, z3.And(raises(U, s, r, "ValueError"), z3.Not(S.PIN(xt)), z3.Not(same)))
                untouched(S, s, f"{what} (refused)")
                U.oblige(f"{what} (refused): the active and the current item stay", s, z3.And(to_term(s.f(S.obj, "_active")) == S.active0, to_term(s.f(S.obj, "_current_")) == S.current0))
                frame(S, f"{what} (refused)", st, s)
                continue
            sound(S, s, what)
            U.oblige(f"{what}: it is the active item", s, to_term(s.f(S.obj, "_active")) == xt)
            U.oblige(f"{what}: the item alone is selected (nothing for None)", s, z3.Implies(z3.Not(same), now.has(t) == (z3.BoolVal(False) if none else t == xt)))
            U.oblige(f"{what}: it is the current item", s, z3.Implies(z3.Not(same), to_term(s.f(S.obj, "_current_")) == xt))
            U.oblige(f"{what}: nothing changes when it is already", s, z3.Implies(same, has_same(S, now)))
            U.oblige(f"{what}: an item outside the parent is not selected", s, z3.Implies(z3.And(z3.BoolVal(not none), z3.Not(same)), S.PIN(xt)))
            frame(S, what, st, s)
        U.must_fail("reachable", st, S.d0.n > 1)


def has_same(S, now):
    t = fresh_v("t")
    return now.has(t) == S.d0.has(t)


@unit("C17", "clearing a selection forgets the current item unless told to keep it", ["Selection.clear", "Selection._current"])
def u_clear_current(U):
    E = U.E
    for keep in (True, False):
        S, st = evset.evset(U, "Selection")
        st = st.setf(S.obj, "_current_", SV(S.current0, "atom")).g(said_active=S.active0, said__current=S.current0)
        for kind, s, r in U.run(st, meth(S, st, "clear"), [keep] if keep else []):
            U.oblige("clear does not fail", s, z3.BoolVal(kind == "ret"))
            c = to_term(s.f(S.obj, "_current_"))
            U.oblige("the current item is kept" if keep else "there is no current item", s, c == (S.current0 if keep else V.none))
            U.oblige("the current item has been announced", s, s.ghost["said__current"] == c)
            done(S, s, f"clear({'keep_current' if keep else ''})", lambda t: z3.BoolVal(False), if1(S.d0.n > 0))


@unit("C17", "a new selection holds the items given (of the parent) and satisfies the invariant", ["Selection.__init__"])
def u_init(U):
    E = U.E
    S, st = evset.evset(U, "Selection")
    got = []

    def super_init(E, st, ca, ctx, fn):
        it = ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("iterable")
        got.append(it)
        st = st.setf(ca.pos[0], "_data", S.dref).setf(ca.pos[0], "events", S.ev)
        S.obj = ca.pos[0]
        s, e = E.new_exc(st, exc_cls(E, "builtins.ValueError"), ())
        ctx.sink.append((s.g(refused=e), e))
        return [(st, None)]
    E.stubs[f"{evset.ES}:EventedOrderedSet.__init__"] = super_init
    data, parent = SV(fresh_v("data")), SV(fresh_v("parent"), "parent")
    ctx = U.ctx(SEL)
    outs = E.instantiate(st, E.loader.cls(SEL, "Selection"), CallArgs([data], None, {"parent": parent}), ctx)
    for s, r in outs:
        U.oblige("the items are those of the iterable given", s, z3.And(z3.BoolVal(len(got) == 1), to_term(got[0]) == data.t))
        U.oblige("the parent is the one given", s, to_term(s.f(r, "_parent")) == parent.t)
        U.oblige("an only item is active, otherwise none is", s, to_term(s.f(r, "_active")) == act(S.d0))
    U.oblige("a selection can be made", st, z3.BoolVal(len(outs) > 0))
    for s, e in ctx.sink:
        U.oblige("it fails only when an item is refused", s, z3.BoolVal(s.ghost.get("refused") is e))


# ---------------------------------------------------------------- SelectableEventedList

class SL:
    pass


SELOPS = ("discard", "update", "clear", "add", "intersection_update", "select_only", "toggle", "remove", "difference_update")


def sel_list(U):
    """an arbitrary selectable list; its selection by the contracts proved above: what is asked of it is recorded"""
    E = U.E
    L = SL()
    st = St()
    L.data = fresh_seq("items")
    L.n = L.data.zn()
    st = st.assume(L.n >= 0)
    st, L.dref = E.new_list(st, L.data)
    L.sel, L.ev = SV(fresh_v("selection"), "selobj"), SV(fresh_v("events"), "listevents")
    L.current = SV(fresh_v("current"), "atom")
    L.items = fresh_seq("selected")
    L.some = L.items.zn() > 0
    L.activate = fresh_bool("activate_on_insert")
    st = st.assume(L.items.zn() >= 0, lib.truthy(L.sel.t) == L.some, L.sel.t != V.none, z3.Not(V.is_vint(L.sel.t)), z3.Not(V.is_vbool(L.sel.t)))
    st, L.lst = E.alloc(st, E.loader.cls(SLL, "SelectableEventedList"), {"_data": L.dref, "_hashable": True, "_child_events": False, "events": L.ev,
                                                                         "_selection": L.sel, "_activate_on_insert": SBool(L.activate)})
    st = st.g(asked=())
    for op in SELOPS:
        E.schema[("selobj", op)] = lambda E, st, v, ctx, op=op: [(st, Partial(Ext("selobj.op"), [op], {}))]

    def ask(E, st, ca, ctx, fn):
        if ca.star is not None:
            raise Unsupported("* arguments")
        return [(st.g(asked=st.ghost["asked"] + ((ca.pos[0], tuple(ca.pos[1:]), dict(ca.kw)),)), None)]
    E.stubs["selobj.op"] = ask
    E.schema[("selobj", "_current")] = lambda E, st, v, ctx: [(st, L.current)]
    E.schema[("selobj", "active")] = lambda E, st, v, ctx: [(st, SV(fresh_v("active")))]
    E.schema[("selobj", "=")] = lambda E, st, o, nm, v, ctx: [st.g(asked=st.ghost["asked"] + ((nm + " =", (v,), {}),))]
    E.schema[("selobj", "iter")] = lambda E, st, v, ctx=None: [(st, L.items)]
    L.IDX = fresh_fun("index", V, I)
    L.INN = fresh_fun("in_list", V, z3.BoolSort())

    def index(E, st, ca, ctx, fn):
        t = to_term(ca.pos[1])
        out = []
        for s, ok in E.split(st, L.INN(t)):
            if ok:
                out.append((s.assume(0 <= L.IDX(t), L.IDX(t) < L.n), SInt(L.IDX(t))))
            else:
                s2, e = E.new_exc(s, exc_cls(E, "builtins.ValueError"), ())
                ctx.sink.append((s2, e))
        return out
    E.stubs["_collections_abc:Sequence.index"] = index
    return L, st


def asked(U, L, s, what, *want):
    """exactly these operations, in this order"""
    E = U.E
    got = s.ghost["asked"]
    U.oblige(f"{what}: {len(want)} operation(s) on the selection", s, z3.BoolVal(len(got) == len(want)))
    if len(got) == len(want):
        for (op, args, kw), (wop, *wargs) in zip(got, want):
            if wop in ("update", "intersection_update") and op == wop and len(args) == 1 and not kw:      # any iterable of the items described
                U.oblige(f"{what}: {wop} with the item(s) described", s, same_items(U, L, s, args[0], wargs[0]))
                continue
            U.oblige(f"{what}: {wop} with the item(s) described", s, z3.And(z3.BoolVal(op == wop and len(args) == len(wargs) and not kw), *([zb_(lib.same(E, s, a, b)) for a, b in zip(args, wargs)] if len(args) == len(wargs) else [])))


def same_items(U, L, s, a, b):
    def seq(v):
        if isinstance(v, Ref) and v == L.lst:
            return L.data
        outs = lib.iterate(U.E, s, v, U.ctx(SLL))
        if len(outs) != 1:
            raise Unsupported(f"items of {v!r}")
        return outs[0][1]
    return zb_(lib.same_seq(U.E, s, seq(a), seq(b)))


def zb_(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


@unit("C17", "an item removed from the list is deselected; an item inserted becomes active; select_all, deselect_all",
      ["SelectableEventedList._on_item_removed", "SelectableEventedList.insert", "SelectableEventedList.select_all", "SelectableEventedList.deselect_all"])
def u_list_simple(U):
    E = U.E
    G = {("g", "asked"), ("g", "inserted")}
    L, st = sel_list(U)
    i, x = SInt(fresh_int("i")), item()
    for kind, s, r in U.run(st, BM(E.class_attr_fn(st, L.lst, "_on_item_removed"), L.lst), [i, x]):
        U.oblige("removed: does not fail", s, z3.BoolVal(kind == "ret"))
        asked(U, L, s, "removed", ("discard", x))
        U.frame("removed", st, s, G)
    for kind, s, r in U.run(st, BM(E.class_attr_fn(st, L.lst, "select_all"), L.lst), []):
        U.oblige("select_all: does not fail", s, z3.BoolVal(kind == "ret"))
        asked(U, L, s, "select_all", ("update", L.lst))
        U.frame("select_all", st, s, G)
    for kind, s, r in U.run(st, BM(E.class_attr_fn(st, L.lst, "deselect_all"), L.lst), []):
        U.oblige("deselect_all: does not fail", s, z3.BoolVal(kind == "ret"))
        asked(U, L, s, "deselect_all", ("clear",))
        U.frame("deselect_all", st, s, G)

    def insert(E, st, ca, ctx, fn):
        E.obligation("inserted before it is activated, where it was asked", st, z3.And(z3.BoolVal(not st.ghost["asked"] and st.ghost["inserted"] == 0), zb_(lib.same(E, st, ca.pos[0], L.lst)), zb_(lib.same(E, st, ca.pos[1], i)), zb_(lib.same(E, st, ca.pos[2], x))))
        return [(st.g(inserted=1), None)]
    E.stubs["psygnal.containers._evented_list:EventedList.insert"] = insert
    for kind, s, r in U.run(st.g(inserted=0), BM(E.class_attr_fn(st, L.lst, "insert"), L.lst), [i, x]):
        U.oblige("insert: does not fail, and inserts", s, z3.BoolVal(kind == "ret" and s.ghost["inserted"] == 1))
        n = len(s.ghost["asked"])
        U.oblige("insert: activates the item exactly when it is to", s, z3.BoolVal(n == 1) == L.activate if n < 2 else z3.BoolVal(False))
        if n:
            asked(U, L, s, "insert", ("active =", x))
        U.frame("insert", st, s, G)
    U.must_fail("reachable", st, z3.BoolVal(False))


@unit("C17", "select_next, select_previous: the item a step from the current one (the last or first when there is none or it would leave the list, "
      "or around its end) becomes active, or is added and becomes current", ["SelectableEventedList.select_next", "SelectableEventedList.select_previous"], timeout=120)
def u_select_next(U):
    E = U.E
    G = {("g", "asked")}
    for prev in (False, True):
        L, st = sel_list(U)
        step = SInt(fresh_int("step")) if not prev else -1
        expand, wrap = SBool(fresh_bool("expand")), SBool(fresh_bool("wrap"))
        kw = {"expand_selection": expand, "wraparound": wrap, **({} if prev else {"step": step})}
        n, sp, ct = L.n, zi(step), L.current.t
        name = "select_previous" if prev else "select_next"
        E.schema[("int", "%")] = None
        E.stubs["_collections_abc:Sequence.__contains__"] = lambda E, st, ca, ctx, fn: [(st, SBool(L.INN(to_term(ca.pos[1]))))]
        known = z3.And(L.some, L.INN(ct))         # there is a current item, and it is (still) in the list
        raw = z3.If(known, L.IDX(ct) + sp, z3.If(sp > 0, -1, 0))
        inr = z3.And(0 <= raw, raw < n)
        edge = z3.If(sp > 0, n - 1, 0)
        target = z3.If(wrap.t if hasattr(wrap, "t") else zb(wrap), raw % n, z3.If(inr, raw, edge))
        for kind, s, r in U.run(st, BM(E.class_attr_fn(st, L.lst, name), L.lst), [], kw):
            U.oblige(f"{name}: does not fail", s, z3.BoolVal(kind == "ret"))
            if kind == "raise":
                continue
            got = s.ghost["asked"]
            U.oblige(f"{name}: the selection stays as it is exactly when the list is empty", s, (n == 0) == z3.BoolVal(not got))
            if not got:
                continue
            want = L.data.at(target)
            if len(got) == 2:
                U.oblige(f"{name}: more than one operation only to expand the selection", s, zb(expand))
                asked(U, L, s, f"{name} expanding", ("add", want), ("_current =", want))
            else:
                U.oblige(f"{name}: the selection is replaced unless it is to be expanded", s, z3.Not(zb(expand)))
                asked(U, L, s, name, ("active =", want))
            U.frame(name, st, s, G)
        U.must_fail("reachable", st, z3.And(n > 0, L.some))


@unit("C17", "remove_selected: each selected item is removed from the list, they are returned, and one item of the rest is selected", ["SelectableEventedList.remove_selected"], timeout=120)
def u_remove_selected(U):
    E = U.E
    L, st = sel_list(U)
    st = st.g(gone=Seq.of([]))
    k = z3.Int("k_rs")
    # the items selected are in the list, and stay in it until they are removed
    st = st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < L.items.zn()), L.INN(to_term(L.items.at(k)))), patterns=[to_term(L.items.at(k))]))
    after = fresh_seq("rest")
    na = after.zn()
    # the last item removed was at most one past the end of what remains
    st = st.assume(na >= 0, z3.Implies(L.items.zn() > 0, L.IDX(to_term(L.items.at(L.items.zn() - 1))) <= na))

    def remove(E, st, ca, ctx, fn):
        return [(st.g(gone=seq_append(st.ghost["gone"], ca.pos[1])), None)]
    E.stubs["_collections_abc:MutableSequence.remove"] = remove
    lenq = "psygnal.containers._evented_list:EventedList.__len__"
    E.stubs[lenq] = lambda E, st, ca, ctx, fn: [(st, SInt(na))]

    def getitem(E, st, ca, ctx, fn):
        i = zi(ca.pos[1])
        E.obligation("the item selected afterwards is one of the list", st, z3.And(-na <= i, i < na))
        return [(st, after.at(i))]
    E.stubs["psygnal.containers._evented_list:EventedList.__getitem__"] = getitem
    E.loop_specs["*"] = lambda _: {"cands": [lambda m: seq_sub(L.items, 0, zlen(m)), lambda m: SInt(z3.If(zlen(m) == 0, 0, L.IDX(to_term(L.items.at(zlen(m) - 1)))))]}
    for kind, s, r in U.run(st, BM(E.class_attr_fn(st, L.lst, "remove_selected"), L.lst), []):
        U.oblige("remove_selected does not fail", s, z3.BoolVal(kind == "ret"))
        if kind != "ret":
            continue
        U.oblige("the items selected are removed, each once", s, lib.same_seq(E, s, s.ghost["gone"], L.items))
        U.oblige("and returned", s, lib.same_seq(E, s, r if isinstance(r, Seq) else Seq.of(r), L.items))
        got = s.ghost["asked"]
        U.oblige("at most one item is selected afterwards", s, z3.BoolVal(len(got) <= 1))
        for op, args, kw in got:
            U.oblige("it is selected by adding it", s, z3.BoolVal(op in ("add", "select_only", "active =") and len(args) == 1))
        U.oblige("an item of what remains is selected, if anything remains", s, z3.BoolVal(len(got) == 1) == (na > 0))
        U.frame("remove_selected", st, s, {("g", "asked"), ("g", "gone")})


@unit("C17", "setting the selection of a list keeps the selection object and leaves exactly the items given; a new list has a selection of its own and deselects what is removed",
      ["Selectable.selection", "Selectable.__init__", "SelectableEventedList.__init__"])
def u_selection_setter(U):
    E = U.E
    L, st = sel_list(U)
    new = fresh_seq("new")
    st = st.assume(new.zn() >= 0)
    ctx = U.ctx(SLL)
    outs = E.setattr(st, L.lst, "selection", new, ctx)
    U.oblige("setting the selection does not fail", st, z3.BoolVal(bool(outs) and not ctx.sink))
    for s in outs:
        asked(U, L, s, "selection =", ("intersection_update", new), ("update", new))
        U.frame("selection =", st, s, {("g", "asked")})
    for s, v in E.getattr(st, L.lst, "selection", U.ctx(SLL)):
        U.oblige("the selection is that of the list", s, zb_(lib.same(E, s, v, L.sel)))
    made, init, conn = [], [], []
    sel2, ev2 = SV(fresh_v("new_selection"), "selobj"), SV(fresh_v("new_events"), "newevents")
    E.stubs[f"{SEL}:Selection"] = lambda E, st, ca, ctx, fn: (made.append(ca), [(st, sel2)])[1]

    def el_init(E, st, ca, ctx, fn):
        init.append(ca)
        E.obligation("the selection is there before items come in", st, z3.BoolVal("_selection" in st.obj(ca.pos[0]).fields and "_activate_on_insert" in st.obj(ca.pos[0]).fields))
        return [(st.setf(ca.pos[0], "events", ev2), None)]
    E.stubs["psygnal.containers._evented_list:EventedList.__init__"] = el_init
    E.schema[("newevents", "removed")] = lambda E, st, v, ctx: [(st, SV(fresh_v("removed"), "removed_sig"))]
    E.schema[("removed_sig", "connect")] = lambda E, st, v, ctx: [(st, Partial(Ext("removed.connect"), [], {}))]
    E.stubs["removed.connect"] = lambda E, st, ca, ctx, fn: (conn.append((st, ca)), [(st, None)])[1]
    data, hs, ce = SV(fresh_v("data")), SBool(fresh_bool("hashable")), SBool(fresh_bool("child_events"))
    ctx = U.ctx(SLL)
    outs = E.instantiate(St(), E.loader.cls(SLL, "SelectableEventedList"), CallArgs([data], None, {"hashable": hs, "child_events": ce}), ctx)
    U.oblige("a selectable list can be made", st, z3.BoolVal(len(outs) == 1 and not ctx.sink))
    for s, r in outs:
        U.oblige("it has one selection of its own, whose parent it is", s, z3.And(z3.BoolVal(len(made) == 1 and not made[0].pos and set(made[0].kw) == {"parent"}), zb_(lib.same(E, s, made[0].kw.get("parent"), r)), zb_(lib.same(E, s, s.f(r, "_selection"), sel2))))
        ok = len(init) == 1
        fr = dict(zip(("self", "data"), init[0].pos), **init[0].kw) if ok else {}
        U.oblige("it is filled with the data given", s, z3.And(z3.BoolVal(ok and {"self", "data", "hashable", "child_events"} == set(fr)), *([zb_(lib.same(E, s, fr["data"], data)), zb_(lib.same(E, s, fr["hashable"], hs)), zb_(lib.same(E, s, fr["child_events"], ce))] if ok and len(fr) == 4 else [])))
        f = conn[0][1].pos[0] if conn and conn[0][1].pos else None
        U.oblige("what is removed from it is deselected", s, z3.BoolVal(len(conn) == 1 and isinstance(f, BM) and f.fn.qual.endswith("_on_item_removed") and f.self_ == r))
        U.oblige("inserted items become active unless told otherwise", s, z3.BoolVal(s.f(r, "_activate_on_insert") is True))
