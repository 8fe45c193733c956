"""C13, C14: EventedList.

The list under contract is an arbitrary EventedList: `_data` an arbitrary sequence of arbitrary
items, `events` an object whose signals are monitored.  The monitor keeps `last`, the contents the
events emitted so far account for: every event must describe exactly the step from `last` to the
current contents (so replaying the events on a copy of the old contents yields the new contents),
"-ing" events must come before their change and the matching "-ed" events after it.

Trusted: the stubs of builtin list operations (pyvc/lib.py: append, insert, pop, index ... on
sequences) are the meaning of the same operations on `_data`; the obligations state the result each
operation must have independently of them."""
from .common import *

EL = "psygnal.containers._evented_list"
C = f"{EL}:EventedList"
EVENTS = ("inserting", "inserted", "removing", "removed", "moving", "moved", "changed", "reordered", "child_event")


class LL:
    """an arbitrary evented list and its monitor"""


def item_seq(prefix="items", n=None):
    return fresh_seq(prefix, n=n)


def seq_eq(E, s, a, b):
    r = lib.same_seq(E, s, a, b)
    return z3.BoolVal(r) if isinstance(r, bool) else r


def clamp_ins(i, n):
    """position of list.insert(i)"""
    i = zi(i)
    return z3.If(i < 0, z3.If(i + n < 0, 0, i + n), z3.If(i > n, n, i))


def evented(U, child=None, cls="EventedList", mod=EL):
    E = U.E
    L = LL()
    L.E, L.U = E, U
    st = St()
    c = E.loader.cls(mod, cls)
    data = item_seq()
    st = st.assume(data.zn() >= 0)
    st, dref = E.new_list(st, data)
    L.data0, L.dref = data, dref
    L.ev = SV(fresh_v("events"), "listevents")
    L.child = fresh_bool("child_events") if child is None else z3.BoolVal(child)
    st, L.lst = E.alloc(st, c, {"_data": dref, "_hashable": SBool(fresh_bool("hashable")), "_child_events": mkbool(L.child),
                                "events": L.ev})
    z = Seq.of([])
    st = st.g(last=data, pend=None, nev=0, nmove=0, nreord=0, conn=z, disc=z, added=z, removed=z, new=())
    events_stub(L)
    child_stub(L)
    newlist_stub(L)
    return L, st


def cur(L, s):
    return s.d(s.f(L.lst, "_data"))


def events_stub(L):
    E = L.E

    def attr(nm):
        return lambda E, st, v, ctx: [(st, SV(EVT(v.t, z3.StringVal(nm)) if False else EVF[nm](v.t), "evt_" + nm))]
    for nm in EVENTS:
        E.schema[("listevents", nm)] = attr(nm)
        E.schema[("evt_" + nm, "emit")] = (lambda nm: lambda E, st, v, ctx: [(st, Partial(Ext("evt.emit"), [nm, v], {}))])(nm)
        E.schema[("evt_" + nm, "()")] = (lambda nm: lambda E, st, f, ca, ctx: emit(E, st, CallArgs([nm, f] + list(ca.pos), ca.star, ca.kw), ctx, None))(nm)
        E.schema[("evt_" + nm, "blocked")] = (lambda nm: lambda E, st, v, ctx: [(st, Partial(Ext("evt.blocked"), [nm, v], {}))])(nm)
    E.schema[("listevents", "[]")] = lambda E, st, o, k, ctx: attr(k)(E, st, o, ctx) if k in EVENTS else []

    def emit(E, st, ca, ctx, fn):
        nm, who, args = ca.pos[0], ca.pos[1], list(ca.pos[2:])
        if ca.star is not None or ca.kw:
            raise Unsupported("event emitted with * arguments")
        mine = is_lit(z3.simplify(who.t == EVF[nm](L.ev.t)))
        if mine is not True:
            return [(st, None)]         # the events of another list: nobody listens yet
        if nm in st.ghost.get("blocked", ()):
            return [(st, None)]
        return [(monitor(L, st, nm, args), None)]
    E.stubs["evt.emit"] = emit

    def blocked(E, st, ca, ctx, fn):
        return [(st, SV(fresh_v("blocker"), "evblock_" + ca.pos[0]))]
    E.stubs["evt.blocked"] = blocked
    for nm in EVENTS:
        def with_(E, st, cm, body, ctx, nm=nm):
            old = st.ghost.get("blocked", ())
            mark = len(ctx.sink)
            outs = [(k, s.g(blocked=old), v) for k, s, v in body(st.g(blocked=old + (nm,)), None)]
            ctx.sink[mark:] = [(s.g(blocked=old), e) for s, e in ctx.sink[mark:]]
            return outs
        E.schema[("evblock_" + nm, "with")] = with_
    E.assumptions.add("listeners of a list's events neither raise nor change the list while an operation on it runs")

    def make_events(E, st, ca, ctx, cls):
        e = fresh_v("newevents")
        return [(st.assume(e != L.ev.t, *[EVF[nm](e) != EVF[nm](L.ev.t) for nm in EVENTS]), SV(e, "listevents"))]
    E.stubs[f"{EL}:ListEvents"] = make_events


EVF = {nm: z3.Function("event_" + nm, V, V) for nm in EVENTS}


def monitor(L, st, nm, args):
    """one event; -> new state"""
    E = L.E
    data, last, pend = cur(L, st), st.ghost["last"], st.ghost["pend"]
    n = last.zn()
    st = st.g(nev=mkint(zi(st.ghost["nev"]) + 1))

    def ob(name, goal):
        E.obligation(f"{nm}: {name}", st, goal)

    def arity(k):
        ob("is emitted with its arguments", z3.BoolVal(len(args) == k))
        return len(args) == k
    want = {"inserted": "inserting", "removed": "removing", "moved": "moving"}.get(nm)
    if want is not None:
        ok = isinstance(pend, tuple) and pend[0] == want
        ob(f"follows its {want} event", z3.BoolVal(ok))
        if not ok:
            return st.g(pend=None, last=data)
    else:
        ob("no announced change is outstanding", z3.BoolVal(pend is None))
    if nm in ("inserting", "removing", "moving"):
        if not arity(2 if nm == "moving" else 1):
            return st
        ob("comes before its change, all earlier changes having been announced", seq_eq(E, st, data, last))
        if nm == "removing":
            ob("names the index of an item", z3.And(0 <= zi(args[0]), zi(args[0]) < n))
        return st.g(pend=(nm, *args))
    if nm == "inserted":
        if not arity(2):
            return st.g(pend=None, last=data)
        i, v = args
        ob("has the index announced", lib.same(E, st, i, pend[1]))
        ob("comes after the item was inserted there, nothing else having changed",
           seq_eq(E, st, data, seq_insert(last, clamp_ins(i, n), v)))
        return st.g(pend=None, last=data, added=seq_append(st.ghost["added"], v))
    if nm == "removed":
        if not arity(2):
            return st.g(pend=None, last=data)
        i, v = args
        ob("has the index announced", lib.same(E, st, i, pend[1]))
        ob("has the item that was there", z3.Implies(z3.And(0 <= zi(i), zi(i) < n), lib.same(E, st, v, last.at(zi(i)))))
        ob("comes after the item was removed, nothing else having changed", seq_eq(E, st, data, seq_delete(last, zi(i))))
        return st.g(pend=None, last=data, removed=seq_append(st.ghost["removed"], last.at(zi(i))))
    if nm == "moved":
        if not arity(3):
            return st.g(pend=None, last=data)
        src, dst, v = args
        ps, pd = zi(pend[1]), zi(pend[2])
        ob("names source and destination actually used", z3.And(zi(src) == ps, 0 <= ps, ps < n, 0 <= pd, pd <= n,
                                                                zi(dst) == z3.If(pd > ps, pd - 1, pd)))
        ob("something moved", z3.And(pd != ps, pd != ps + 1))
        ob("has the item moved", lib.same(E, st, v, last.at(ps)))
        ob("comes after the item was moved, nothing else having changed",
           seq_eq(E, st, data, seq_insert(seq_delete(last, ps), zi(dst), v)))
        return st.g(pend=None, last=data, nmove=mkint(zi(st.ghost["nmove"]) + 1))
    if nm == "reordered":
        arity(0)
        st = st.g(nreord=mkint(zi(st.ghost["nreord"]) + 1))
        perm = st.ghost.get("perm")
        if perm is None:
            ob("all changes of contents have been announced", seq_eq(E, st, data, last))
            return st
        ob("the contents are the reordering asked for", seq_eq(E, st, data, perm))
        return st.g(last=data)
    if nm == "changed":
        if not arity(3):
            return st.g(last=data)
        key, old, new = args
        if isinstance(key, SV) and key.cls == "slice":
            h = st.ghost.get("slice_changed")
            if h is not None:
                return h(L, st, ob, key, old, new)
            return st.g(last=data)
        k = zi(key)
        p = z3.If(k < 0, k + n, k)
        inr = z3.And(0 <= p, p < n)
        ob("names the index of an item", inr)
        ob("has the item that was there", lib.same(E, st, old, last.at(p)))
        ob("comes after the new item was stored there, nothing else having changed",
           seq_eq(E, st, data, Seq(n, lambda j: ite(zlen(j) == p, new, last.at(j)))))
        return st.g(last=data, added=seq_append(st.ghost["added"], new), removed=seq_append(st.ghost["removed"], last.at(p)))
    if nm == "child_event":
        return st.g(child=(st.ghost.get("child") or ()) + (tuple(args),))
    return st


def child_stub(L):
    """iter_signal_instances(child): the child's emitters; connecting/disconnecting all of them to the list's
    re-emitter is checked in its own unit"""
    def conn(which):
        def h(E, st, ca, ctx, fn):
            if ca.pos[0] != L.lst:
                return [(st, None)]
            return [(st.g(**{which: seq_append(st.ghost[which], ca.pos[1])}), None)]
        return h
    L.E.stubs[f"{C}._connect_child_emitters"] = conn("conn")
    L.E.stubs[f"{C}._disconnect_child_emitters"] = conn("disc")


def newlist_stub(L):
    pass


def done(L, s, what, data=None, added=None, removed=None, pre=None):
    """the operation is over: contents, events, children"""
    U, E = L.U, L.E
    g = s.ghost
    U.oblige(f"{what}: every change was announced, in full", s, z3.And(z3.BoolVal(g["pend"] is None), seq_eq(E, s, cur(L, s), g["last"])))
    if data is not None:
        U.oblige(f"{what}: the contents are those a list has", s, seq_eq(E, s, cur(L, s), data))
    if added is not None:
        U.oblige(f"{what}: with child events on, the items that came in are listened to (else none)", s,
                 z3.If(L.child, seq_eq(E, s, g["conn"], added), g["conn"].zn() == 0))
        U.oblige(f"{what}: with child events on, the items that went out are not listened to any more", s,
                 z3.If(L.child, seq_eq(E, s, g["disc"], removed if removed is not None else Seq.of([])), g["disc"].zn() == 0))


GH = {("g", k) for k in ("last", "pend", "nev", "nmove", "nreord", "conn", "disc", "added", "removed", "blocked", "perm")}


def untouched(L, s, what, pre):
    U = L.U
    U.oblige(f"{what}: nothing changed and nothing was emitted", s,
             z3.And(zi(s.ghost["nev"]) == 0, seq_eq(L.E, s, cur(L, s), L.data0), s.ghost["conn"].zn() == 0, s.ghost["disc"].zn() == 0))


def frame(L, what, pre, s):
    L.U.frame(what, pre, s, GH | {("d", L.dref.oid)})


EMPTY = Seq.of([])


def one(v):
    return Seq.of([v])


@unit(["C13"], "insert: list.insert, announced by inserting and inserted", ["EventedList.insert", "EventedList._pre_insert", "EventedList._post_insert"])
def u_insert(U):
    L, st = evented(U)
    i, v = SInt(fresh_int("index")), SV(fresh_v("value"), "any")
    want = seq_insert(L.data0, clamp_ins(i, L.data0.zn()), v)
    for kind, s, r in U.run(st, f"{C}.insert", [L.lst, i, v]):
        U.oblige("insert does not fail and returns None", s, z3.BoolVal(kind == "ret" and r is None))
        done(L, s, "insert", want, one(v))
        U.oblige("insert emits one inserting and one inserted event", s, zi(s.ghost["nev"]) == 2)
        frame(L, "insert", st, s)
    U.must_fail("insert is reachable", st, z3.BoolVal(False))


@unit(["C13"], "append: at the end", ["EventedList.append", "EventedList.insert"])
def u_append(U):
    L, st = evented(U)
    v = SV(fresh_v("value"), "any")
    for kind, s, r in U.run(st, U.E.class_attr_fn(st, L.lst, "append") and BM(U.E.class_attr_fn(st, L.lst, "append"), L.lst), [v]):
        U.oblige("append does not fail and returns None", s, z3.BoolVal(kind == "ret" and r is None))
        done(L, s, "append", seq_append(L.data0, v), one(v))
        frame(L, "append", st, s)


def meth(L, st, name):
    return BM(L.E.class_attr_fn(st, L.lst, name), L.lst)


def in_range(L, i):
    n = L.data0.zn()
    return z3.And(-n <= zi(i), zi(i) < n)


def pos_of(L, i):
    return z3.If(zi(i) < 0, zi(i) + L.data0.zn(), zi(i))


@unit(["C13"], "item assignment by index: list semantics, announced by changed unless the item is identical",
      ["EventedList.__setitem__"])
def u_setitem(U):
    L, st = evented(U)
    E = U.E
    i, v = SInt(fresh_int("index")), SV(fresh_v("value"), "any")
    p = pos_of(L, i)
    old = L.data0.at(p)
    for kind, s, r in U.run(st, f"{C}.__setitem__", [L.lst, i, v]):
        if kind == "raise":
            U.oblige("assignment fails exactly for an index out of range", s, z3.And(z3.Not(in_range(L, i)), z3.BoolVal(U.exc_is(s, r, "IndexError") is True)))
            untouched(L, s, "a failing assignment", st)
            continue
        U.oblige("assignment to an index in range does not fail", s, in_range(L, i))
        same = lib.same(E, s, v, old)
        U.oblige("the item is stored at its index", s, seq_eq(E, s, cur(L, s), Seq(L.data0.zn(), lambda k: ite(zlen(k) == p, v, L.data0.at(k)))))
        U.oblige("one changed event, none when the very same item is assigned", s, zi(s.ghost["nev"]) == z3.If(same, 0, 1))
        U.oblige("item assignment: the change was announced", s, z3.And(z3.BoolVal(s.ghost["pend"] is None), seq_eq(E, s, cur(L, s), s.ghost["last"])))
        g = s.ghost
        U.oblige("with child events on, the old item is no longer listened to and the new one is", s,
                 z3.If(z3.And(L.child, z3.Not(same)), z3.And(seq_eq(E, s, g["conn"], one(v)), seq_eq(E, s, g["disc"], one(old))),
                       z3.And(g["conn"].zn() == 0, g["disc"].zn() == 0)))
        frame(L, "__setitem__", st, s)
    U.must_fail("reachable", st, z3.Not(in_range(L, i)))


def one_gone(L, p):
    return seq_delete(L.data0, p)


@unit(["C13"], "item deletion by index: list semantics, announced by removing and removed",
      ["EventedList.__delitem__", "EventedList._delitem_indices", "EventedList._pre_remove"])
def u_delitem(U):
    L, st = evented(U)
    E = U.E
    i = SInt(fresh_int("index"))
    sorted_hook(L)
    for kind, s, r in U.run(st, f"{C}.__delitem__", [L.lst, i]):
        if kind == "raise":
            U.oblige("deletion fails exactly for an index out of range", s, z3.And(z3.Not(in_range(L, i)), z3.BoolVal(U.exc_is(s, r, "IndexError") is True)))
            untouched(L, s, "a failing deletion", st)
            continue
        U.oblige("deleting an index in range does not fail", s, in_range(L, i))
        done(L, s, "del", one_gone(L, pos_of(L, i)), EMPTY, one(L.data0.at(pos_of(L, i))))
        U.oblige("one removing and one removed event", s, zi(s.ghost["nev"]) == 2)
        frame(L, "__delitem__", st, s)


def sorted_hook(L):
    """sorted() of a literal list of one element"""
    def h(E, st, ca, ctx):
        out = []
        for s, sq in lib.iterate(E, st, ca.pos[0], ctx):
            if is_lit(z3.simplify(sq.zn())) != 1:
                raise Unsupported("sorted")
            out.append(E.new_list(s, sq))
        return out
    L.E.schema[("builtins", "sorted")] = h


@unit(["C13"], "pop: list.pop", ["EventedList.pop (MutableSequence)", "EventedList.__delitem__", "EventedList.__getitem__"])
def u_pop(U):
    L, st = evented(U)
    E = U.E
    sorted_hook(L)
    i = SInt(fresh_int("index"))
    n = L.data0.zn()
    for args in ([i], []):
        j = i if args else SInt(z3.IntVal(-1))
        for kind, s, r in U.run(st, meth(L, st, "pop"), args):
            if kind == "raise":
                U.oblige("pop fails exactly for an index out of range", s, z3.And(z3.Not(in_range(L, j)), z3.BoolVal(U.exc_is(s, r, "IndexError") is True)))
                untouched(L, s, "a failing pop", st)
                continue
            U.oblige("pop of an index in range does not fail", s, in_range(L, j))
            U.oblige("pop returns the item", s, lib.same(E, s, r, L.data0.at(pos_of(L, j))))
            done(L, s, "pop", one_gone(L, pos_of(L, j)), EMPTY, one(L.data0.at(pos_of(L, j))))


@unit(["C13"], "indexing by an integer and len", ["EventedList.__getitem__", "EventedList.__len__"])
def u_getitem(U):
    L, st = evented(U)
    E = U.E
    i = SInt(fresh_int("index"))
    for kind, s, r in U.run(st, f"{C}.__getitem__", [L.lst, i]):
        if kind == "raise":
            U.oblige("indexing fails exactly out of range", s, z3.And(z3.Not(in_range(L, i)), z3.BoolVal(U.exc_is(s, r, "IndexError") is True)))
        else:
            U.oblige("indexing gives the item itself", s, z3.And(in_range(L, i), lib.same(E, s, r, L.data0.at(pos_of(L, i)))))
        untouched(L, s, "indexing", st)
    for kind, s, r in U.run(st, f"{C}.__len__", [L.lst]):
        U.oblige("len is the number of items", s, z3.And(z3.BoolVal(kind == "ret"), zi(r) == L.data0.zn()) if kind == "ret" else z3.BoolVal(False))
        untouched(L, s, "len", st)


def extend_with(U, m, child):
    L, st = evented(U, child=child)
    E = U.E
    other = item_seq("new")
    st = st.assume(other.zn() >= 0)
    st, oref = E.new_list(st, other)
    want = seq_concat(L.data0, other)
    upto = lambda k: seq_sub(other, 0, zlen(k))
    E.loop_specs["*"] = lambda _: {"cands": [lambda k: seq_concat(L.data0, upto(k)), upto, lambda k: EMPTY]}
    for kind, s, r in U.run(st, meth(L, st, m), [oref]):
        U.oblige(f"{m} does not fail", s, z3.BoolVal(kind == "ret"))
        if m == "__iadd__":
            U.oblige("+= gives the same list", s, z3.BoolVal(r == L.lst))
        done(L, s, m, want, other)
        U.oblige(f"{m}: one pair of events per item", s, zi(s.ghost["nev"]) == 2 * other.zn())
        frame(L, m, st, s)


@unit(["C13"], "extend: every item inserted at the end, in order", ["EventedList.extend (MutableSequence)"])
def u_extend(U):
    for child in (False, True):
        extend_with(U, "extend", child)


@unit(["C13"], "+=: every item inserted at the end, in order", ["EventedList.__iadd__"])
def u_iadd(U):
    for child in (False, True):
        extend_with(U, "__iadd__", child)


@unit(["C13"], "clear: removes every item", ["EventedList.clear (MutableSequence)"])
def u_clear(U):
    for child in (False, True):
        L, st = evented(U, child=child)
        E = U.E
        sorted_hook(L)
        n = L.data0.zn()
        gone = lambda k: Seq(zlen(k), lambda j: L.data0.at(n - 1 - zlen(j)))
        E.loop_specs["*"] = lambda _: {"cands": [lambda k: seq_sub(L.data0, 0, n - zlen(k)), gone, lambda k: EMPTY]}
        for kind, s, r in U.run(st, meth(L, st, "clear"), []):
            U.oblige("clear does not fail", s, z3.BoolVal(kind == "ret"))
            done(L, s, "clear", EMPTY, EMPTY, gone(n))
            frame(L, "clear", st, s)


@unit(["C13"], "equality, contains, index, count, iteration", ["EventedList.__eq__"])
def u_eq(U):
    L, st = evented(U)
    E = U.E
    other = item_seq("other")
    st = st.assume(other.zn() >= 0)
    st, oref = E.new_list(st, other)
    for kind, s, r in U.run(st, f"{C}.__eq__", [L.lst, oref]):
        for k2, s2, r2 in ([("ret", s, v) for s, v in [(s, r)]] if kind == "ret" else []):
            U.oblige("equal to a list exactly when the contents are", s, zb(r) == seq_equal_sem(E, s, L.data0, other))
        untouched(L, s, "==", st)


def seq_equal_sem(E, s, a, b):
    return lib.seq_equal(E, s, a, b)


def eq_item(E, s, x, v):
    """`x is v or x == v`, the comparison lists use"""
    c = U_ctx(E)
    return lib.pure_equal(E, s, x, v, c)


def U_ctx(E):
    return E.unit.ctx(EL)


def first_at(E, s, sq, v, i, lo=0):
    """i is the first position >= lo of an item equal to v"""
    zi = lambda x: zlen(x) if not isinstance(x, SInt) else x.t
    j = z3.Int("j_first")
    k = fresh_int("k_eq")
    c = eq_item(E, s, sq.at(k), v)
    at = lambda t: z3.substitute(c, (k, z3.IntVal(t) if isinstance(t, int) else t))
    return z3.And(zi(lo) <= zi(i), zi(i) < sq.zn(), at(zi(i)),
                  z3.ForAll([j], z3.Implies(z3.And(0 <= j, zi(lo) + j < zi(i)), z3.Not(at(zi(lo) + j)))))


def nowhere(E, s, sq, v, lo=0, hi=None):
    zi = zlen
    j = z3.Int("j_first")
    k = fresh_int("k_eq")
    c = eq_item(E, s, sq.at(k), v)
    hi = sq.zn() if hi is None else hi
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, zi(lo) + j < hi), z3.Not(z3.substitute(c, (k, zi(lo) + j)))))


@unit(["C13"], "index: the first equal item, ValueError when there is none", ["EventedList.index (Sequence)"])
def u_index(U):
    L, st = evented(U)
    E = U.E
    v = SV(fresh_v("value"), "any")
    for kind, s, r in U.run(st, meth(L, st, "index"), [v]):
        if kind == "ret":
            U.oblige("index gives the first equal item", s, first_at(E, s, L.data0, v, r))
        else:
            U.oblige("index fails only when no item is equal, with ValueError", s, z3.And(z3.BoolVal(U.exc_is(s, r, "ValueError") is True), nowhere(E, s, L.data0, v)))
        untouched(L, s, "index", st)


@unit(["C13"], "index with a start", ["EventedList.index (Sequence)"])
def u_index2(U):
    L, st = evented(U)
    E = U.E
    v = SV(fresh_v("value"), "any")
    a = SInt(fresh_int("start"))
    n = L.data0.zn()
    for cond, lo in ((zi(a) >= 0, zi(a)), (z3.And(zi(a) < 0, zi(a) + n >= 0), zi(a) + n), (zi(a) + n < 0, z3.IntVal(0))):
        for kind, s, r in U.run(st.assume(cond), meth(L, st, "index"), [v, a]):
            if kind == "ret":
                U.oblige("index(start) gives the first equal item from there", s, first_at(E, s, L.data0, v, r, lo))
            else:
                U.oblige("index(start) fails only when no later item is equal", s, z3.And(z3.BoolVal(U.exc_is(s, r, "ValueError") is True), nowhere(E, s, L.data0, v, lo)))
            untouched(L, s, "index", st)


@unit(["C13"], "`in`: whether an item is equal", ["EventedList.__contains__ (Sequence)"])
def u_contains(U):
    L, st = evented(U)
    E = U.E
    v = SV(fresh_v("value"), "any")
    for kind, s, r in U.run(st, meth(L, st, "__contains__"), [v]):
        U.oblige("`in` is whether an item is equal", s, z3.And(z3.BoolVal(kind == "ret"), zb(r) == z3.Not(nowhere(E, s, L.data0, v))) if kind == "ret" else z3.BoolVal(False))
        untouched(L, s, "in", st)


@unit(["C13"], "iteration gives the items in order", ["EventedList.__iter__ (Sequence)"])
def u_iter(U):
    L, st = evented(U)
    E = U.E
    for kind, s, r in U.run(st, BM(E.loader_fn_list, None) if False else Ext("builtins.list"), [L.lst]):
        U.oblige("iterating gives every item once, in order", s, z3.And(z3.BoolVal(kind == "ret"), seq_eq(E, s, s.d(r), L.data0)) if kind == "ret" else z3.BoolVal(False))
        untouched(L, s, "iteration", st)


@unit(["C13"], "remove: deletes the first equal item, ValueError when there is none", ["EventedList.remove (MutableSequence)"])
def u_remove(U):
    L, st = evented(U)
    E = U.E
    sorted_hook(L)
    v = SV(fresh_v("value"), "any")
    w = fresh_int("first")

    def index(E, st, ca, ctx, fn):
        st2 = st.assume(first_at(E, st, cur(L, st), ca.pos[1], w))
        E.raise_(st.assume(nowhere(E, st, cur(L, st), ca.pos[1])), ctx, "ValueError")
        return [(st2, SInt(w))]
    E.stubs["_collections_abc:Sequence.index"] = index
    for kind, s, r in U.run(st, meth(L, st, "remove"), [v]):
        if kind == "raise":
            U.oblige("remove fails only when no item is equal, with ValueError", s, z3.And(z3.BoolVal(U.exc_is(s, r, "ValueError") is True), nowhere(E, s, L.data0, v)))
            untouched(L, s, "a failing remove", st)
            continue
        U.oblige("remove finds an equal item, the first one", s, first_at(E, s, L.data0, v, SInt(w)))
        done(L, s, "remove", one_gone(L, w), EMPTY, one(L.data0.at(w)))
        frame(L, "remove", st, s)


@unit(["C13", "C14"], "reverse: the contents reversed, one reordered event", ["EventedList.reverse"])
def u_reverse(U):
    L, st = evented(U)
    E = U.E
    n = L.data0.zn()
    rev = Seq(n, lambda k: L.data0.at(n - 1 - zlen(k)))
    st = st.g(perm=rev)
    for kind, s, r in U.run(st, f"{C}.reverse", [L.lst]):
        U.oblige("reverse does not fail and returns None", s, z3.BoolVal(kind == "ret" and r is None))
        U.oblige("the contents are reversed", s, seq_eq(E, s, cur(L, s), rev))
        U.oblige("exactly one event, reordered", s, z3.And(zi(s.ghost["nev"]) == 1, zi(s.ghost["nreord"]) == 1))
        U.oblige("the change was announced", s, seq_eq(E, s, cur(L, s), s.ghost["last"]))
        U.oblige("no child is connected or disconnected", s, z3.And(s.ghost["conn"].zn() == 0, s.ghost["disc"].zn() == 0))
        frame(L, "reverse", st, s)


# ---------------------------------------------------------------- slices

class Sl:
    """an arbitrary slice of the list: `cnt` positions idx(0..cnt), in the order the slice runs"""


def slice_key(L, st):
    """The positions an arbitrary slice selects in a list of n items: within the list, strictly ascending or
    descending (this is all that is used of slice.indices and range)."""
    E = L.E
    S = Sl()
    n = L.data0.zn()
    S.key = SV(fresh_v("slice"), "slice")
    S.cnt, S.asc = fresh_int("cnt"), fresh_bool("ascending")
    S.idx = fresh_fun("idx", z3.IntSort(), z3.IntSort())
    a, b = z3.Int("a_i"), z3.Int("b_i")
    st = st.assume(S.cnt >= 0, S.cnt <= n,
                   z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < S.cnt), z3.And(0 <= S.idx(a), S.idx(a) < n))),
                   z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < S.cnt), z3.If(S.asc, S.idx(a) < S.idx(b), S.idx(a) > S.idx(b)))))
    lo, hi, step = (SInt(fresh_int(x)) for x in ("start", "stop", "step"))
    S.sel = Seq(S.cnt, lambda k: SInt(S.idx(zlen(k))))
    E.assumptions.add("slice.indices/range select the positions of a slice, within the list and strictly monotonic; list[slice] and list[slice] = v are the builtin operations")

    def indices(E, st, ca, ctx, fn):
        E.obligation("the slice is resolved for the length of the list", st, zi(ca.pos[-1]) == n)
        return [(st, (lo, hi, step))]
    E.schema[("slice", "indices")] = lambda E, st, v, ctx: [(st, Partial(Ext("slice_indices"), [v], {}))]
    E.stubs["slice_indices"] = indices
    rng = lib.FUNCS["builtins.range"]

    def range_(E, st, ca, ctx, fn):
        pos = list(ca.pos)
        if ca.star is not None:
            pos += list(ca.star.items if isinstance(ca.star, Seq) and ca.star.items is not None else ca.star)
        if len(pos) == 3 and pos[0] is lo and pos[1] is hi and pos[2] is step:
            return [(st, S.sel)]
        if any(x is y for x in pos for y in (lo, hi, step)):
            raise Unsupported("a part of slice.indices used on its own")
        return rng(E, st, CallArgs(pos), ctx)
    E.stubs["builtins.range"] = range_

    def get(E, st, o, sq, k, ctx):
        if k != S.key:
            raise Unsupported("another slice")
        if is_lit(sq.zn() == n) is not True:
            E.obligation("the slice is taken of the list as it was", st, seq_eq(E, st, sq, L.data0))
        return [E.new_list(st, Seq(S.cnt, lambda j: sq.at(S.idx(zlen(j)))))]
    E.schema[("slice", "get")] = get
    S.picked = Seq(S.cnt, lambda j: L.data0.at(S.idx(zlen(j))))
    # positions from the highest down
    S.D = lambda k: z3.If(S.asc, S.idx(S.cnt - 1 - zlen(k)), S.idx(zlen(k)))
    S.up = lambda k: z3.If(S.asc, S.idx(zlen(k)), S.idx(S.cnt - 1 - zlen(k)))

    def sorted_(E, st, ca, ctx):
        out = []
        for s, sq in lib.iterate(E, st, ca.pos[0], ctx):
            lit = is_lit(z3.simplify(sq.zn()))
            if lit in (0, 1):
                out.append(E.new_list(s, sq))
                continue
            if set(ca.kw) - {"reverse"}:
                raise Unsupported("sorted with a key")
            k = fresh_int("k_sorted")
            el = sq.at(k)
            pair = isinstance(el, tuple) and len(el) == 2 and el[0] == L.lst
            val = el[1] if pair else el
            if not E.entails(s, sq.zn() == S.cnt) or not isinstance(val, SInt) or is_lit(z3.simplify(zi(val) == S.idx(k))) is not True:
                raise Unsupported(f"sorted of something else than the positions of the slice: {el} {sq.zn()}")
            f = S.D if ca.kw.get("reverse") is True else S.up
            out.append(E.new_list(s, Seq(S.cnt, (lambda j: (L.lst, SInt(f(j)))) if pair else (lambda j: SInt(f(j))))))
        return out
    E.schema[("builtins", "sorted")] = sorted_
    return S, st


@unit(["C13"], "deleting a slice: exactly the selected items go, each removal announced", ["EventedList.__delitem__", "EventedList._delitem_indices"])
def u_delslice(U):
    for child in (False, True):
        L, st = evented(U, child=child)
        E = U.E
        S, st = slice_key(L, st)
        n = L.data0.zn()
        # what is left after m of the selected positions were deleted, highest first
        G = fresh_fun("G", z3.IntSort(), z3.IntSort(), V)
        k = z3.Int("k_g")
        left = lambda m: Seq(n - zlen(m), lambda j: SV(G(zlen(m), zlen(j))))
        st = st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), G(0, k) == to_term(L.data0.at(k)))))

        def facts(m):
            m = zlen(m)
            return [z3.ForAll([k], z3.Implies(0 <= k, G(m + 1, k) == z3.If(k < S.D(m), G(m, k), G(m, k + 1))))]

        def inv(s, m):
            m = zlen(m)
            return [("items below the last deleted position are where they were",
                     z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, z3.Or(m == 0, k < S.D(m - 1))), G(m, k) == to_term(L.data0.at(k))))),
                    ("the deleted positions are high enough", z3.Or(m == 0, S.D(m - 1) <= n - m))]
        gone = lambda m: Seq(zlen(m), lambda j: SV(G(zlen(j), S.D(j))))
        E.loop_specs["*"] = lambda _: {"cands": [left, gone, lambda m: EMPTY], "facts": facts, "inv": inv}
        for kind, s, r in U.run(st, f"{C}.__delitem__", [L.lst, S.key]):
            U.oblige("deleting a slice does not fail", s, z3.BoolVal(kind == "ret"))
            done(L, s, "del slice", left(S.cnt), EMPTY, gone(S.cnt))
            frame(L, "del slice", st, s)
        U.must_fail("slices of several items exist", st, S.cnt <= 1)


@unit(["C13"], "a slice of the list is a list of the selected items with its own events", ["EventedList.__getitem__", "EventedList.__newlike__"])
def u_getslice(U):
    L, st = evented(U, child=False)
    E = U.E
    S, st = slice_key(L, st)
    E.loop_specs["*"] = lambda _: {"cands": [lambda k: seq_sub(S.picked, 0, zlen(k))]}
    for kind, s, r in U.run(st, f"{C}.__getitem__", [L.lst, S.key]):
        U.oblige("slicing does not fail", s, z3.BoolVal(kind == "ret"))
        untouched(L, s, "slicing", st)
        if kind == "ret":
            same_new(L, s, r, S.picked, "a slice")
        frame(L, "getslice", st, s)


def same_new(L, s, r, want, what):
    """r is a new evented list with the contents wanted and events of its own"""
    U, E = L.U, L.E
    ok = isinstance(r, Ref) and r != L.lst and s.obj(r).cls is s.obj(L.lst).cls
    U.oblige(f"{what} is a new evented list of the same class", s, z3.BoolVal(ok))
    if not ok:
        return
    d = s.f(r, "_data")
    U.oblige(f"{what} has storage of its own", s, z3.BoolVal(isinstance(d, Ref) and d != L.dref))
    U.oblige(f"{what} has the items", s, seq_eq(E, s, s.d(d), want))
    ev = s.f(r, "events")
    U.oblige(f"{what} has events of its own", s, z3.And(z3.BoolVal(isinstance(ev, SV) and ev.cls == "listevents"), ev.t != L.ev.t) if isinstance(ev, SV) else z3.BoolVal(False))


@unit(["C13", "C21"], "copy: the same items, events of its own", ["EventedList.copy", "EventedList.__copy__", "EventedList.__init__"])
def u_copy(U):
    for m in ("copy", "__copy__"):
        L, st = evented(U, child=False)
        E = U.E
        E.loop_specs["*"] = lambda _: {"cands": [lambda k: seq_sub(L.data0, 0, zlen(k))]}
        for kind, s, r in U.run(st, meth(L, st, m), []):
            U.oblige("copying does not fail", s, z3.BoolVal(kind == "ret"))
            untouched(L, s, m, st)
            if kind == "ret":
                same_new(L, s, r, L.data0, "a copy")
            frame(L, m, st, s)


@unit(["C13"], "ev + other: a new list of both; list + ev: a list of both", ["EventedList.__add__", "EventedList.__radd__"])
def u_add(U):
    L, st = evented(U, child=False)
    E = U.E
    other = item_seq("other")
    st = st.assume(other.zn() >= 0)
    st, oref = E.new_list(st, other)
    upto = lambda k: seq_sub(other, 0, zlen(k))
    E.loop_specs["*"] = lambda _: {"cands": [lambda k: seq_concat(L.data0, upto(k)), lambda k: seq_sub(L.data0, 0, zlen(k))]}
    for kind, s, r in U.run(st, f"{C}.__add__", [L.lst, oref]):
        U.oblige("+ does not fail", s, z3.BoolVal(kind == "ret"))
        untouched(L, s, "+", st)
        if kind == "ret":
            same_new(L, s, r, seq_concat(L.data0, other), "the sum")
        frame(L, "+", st, s)
    for kind, s, r in U.run(st, f"{C}.__radd__", [L.lst, oref]):
        untouched(L, s, "list +", st)
        U.oblige("list + ev is a plain list of both", s, z3.And(z3.BoolVal(kind == "ret"), seq_eq(E, s, s.d(r), seq_concat(other, L.data0))) if kind == "ret" else z3.BoolVal(False))
        frame(L, "radd", st, s)


@unit(["C13"], "assigning to a slice: the builtin assignment, announced by one changed event", ["EventedList.__setitem__"])
def u_setslice(U):
    for child in (False, True):
        for how in ("list", "iterator", "self", "other"):
            L, st = evented(U, child=child)
            E = U.E
            S, st = slice_key(L, st)
            new = item_seq("new")
            st = st.assume(new.zn() >= 0)
            if how == "list":
                st, val = E.new_list(st, new)
            elif how == "iterator":
                st, val = E.alloc(st, Ext("builtins.list_iterator"), {"pos": 0}, data=new, kind="iter")
            elif how == "self":
                val, new = L.lst, L.data0
            else:
                val = SV(fresh_v("not_iterable"), "plain")
                for nm in ("collections.abc.Iterable", "_collections_abc:Iterable"):
                    E.schema[("isinstance", nm)] = lambda E, st, v: False if isinstance(v, SV) and v.cls == "plain" else None
            result = item_seq("assigned")

            def setter(E, st, o, data, k, v, ctx, result=result, L=L, S=S, new=new):
                E.obligation("the slice given is assigned, once, to the list", st, z3.BoolVal(k == S.key and o == L.dref and not st.ghost.get("assigned")))
                E.obligation("the list is unchanged until then", st, seq_eq(E, st, data, L.data0))
                outs = []
                for s, sq in lib.iterate(E, st, v, ctx):
                    E.obligation("what is assigned are the items given", s, seq_eq(E, s, sq, new))
                    E.raise_(s, ctx, "ValueError", ("attempt to assign sequence of another size to extended slice",))
                    outs.append(s.assume(result.zn() >= 0).setd(o, result).g(assigned=True))
                return outs
            E.schema[("slice", "set")] = setter

            def changed(L, st, ob, key, old, newv, S=S, new=new, result=result):
                ob("names the slice", z3.BoolVal(key == S.key))
                ob("comes after the assignment", z3.And(z3.BoolVal(bool(st.ghost.get("assigned"))), seq_eq(E, st, cur(L, st), result)))
                o, w = contents(E, st, old), contents(E, st, newv)
                ob("has the items that were there", seq_eq(E, st, o, S.picked) if o is not None else z3.BoolVal(False))
                ob("has the items assigned", seq_eq(E, st, w, new) if w is not None else z3.BoolVal(False))
                return st.g(last=cur(L, st))
            st = st.g(slice_changed=changed, assigned=False)
            for kind, s, r in U.run(st, f"{C}.__setitem__", [L.lst, S.key, val]):
                if kind == "raise":
                    untouched(L, s, "a failing slice assignment", st)
                    U.oblige("slice assignment fails only for the wrong number of items or something not iterable", s,
                             z3.BoolVal(U.exc_is(s, r, "TypeError" if how == "other" else "ValueError") is True))
                    continue
                U.oblige("something not iterable is refused", s, z3.BoolVal(how != "other"))
                U.oblige("the slice is assigned", s, z3.And(z3.BoolVal(bool(s.ghost["assigned"])), seq_eq(E, s, cur(L, s), result)))
                U.oblige("one changed event", s, zi(s.ghost["nev"]) == 1)
                done(L, s, "slice assignment", None, new, S.picked)
                U.frame("setslice", st, s, GH | {("d", L.dref.oid), ("g", "assigned")} | ({("f", val.oid), ("d", val.oid)} if how == "iterator" else set()))
            for nm in ("collections.abc.Iterable", "_collections_abc:Iterable"):
                E.schema.pop(("isinstance", nm), None)


def contents(E, st, v):
    """items of a list-like value, None for an iterator already consumed"""
    if isinstance(v, Ref) and st.obj(v).kind == "list":
        return st.d(v)
    if isinstance(v, Ref) and st.has(v, "_data") if hasattr(st, "has") else False:
        return st.d(st.f(v, "_data"))
    if isinstance(v, (Seq, tuple)):
        return Seq.of(v) if isinstance(v, tuple) else v
    return None


# ---------------------------------------------------------------- child events

def emitters(L, st, E):
    """the child's signals: a family of distinct signal instances, in an arbitrary number"""
    si = E.loader.cls(SIG, "SignalInstance")
    ems = fam_seq(E, si, prefix="emitters")
    st = st.assume(ems.zn() >= 0)
    f = fresh_fun("conn0", V, z3.IntSort())
    st = st.sm("@conn", lambda t: SInt(f(t)))
    child = SV(fresh_v("child"), "any")

    def it(E, st, ca, ctx, fn):
        E.obligation("the signals looked for are the child's", st, lib.same(E, st, ca.pos[0], child))
        E.obligation("its public signals, relays included", st, z3.BoolVal(len(ca.pos) == 1 and not any(ca.kw.values())))
        return [(st, ems)]
    E.stubs["psygnal.utils:iter_signal_instances"] = it

    def reemitter(v):
        return isinstance(v, BM) and v.self_ == L.lst and getattr(v.fn, "qual", "").endswith("EventedList._reemit_child_event")

    def op(d):
        def h(E, st, ca, ctx, fn):
            slot = ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("slot")
            E.obligation("it is the list's own re-emitter", st, z3.BoolVal(reemitter(slot)))
            E.obligation("it is called directly, with every argument", st, z3.BoolVal(not any(ca.kw.get(k) for k in ("thread", "unique")) and ca.kw.get("max_args") is None))
            n = zi(st.smap["@conn"](to_term(ca.pos[0])))
            st = E.sm_write(st, ca.pos[0], "@conn", mkint(n + d if d > 0 else z3.If(n > 0, n - 1, 0)))
            return [(st, slot)]
        return h
    E.stubs[f"{SIG}:SignalInstance.connect"] = op(1)
    E.stubs[f"{SIG}:SignalInstance.disconnect"] = op(-1)
    return ems, child, f, st


@unit(["C13"], "connecting a child: each of its signals gets the list's re-emitter once more; disconnecting: once less",
      ["EventedList._connect_child_emitters", "EventedList._disconnect_child_emitters"])
def u_childconn(U):
    for m, d in (("_connect_child_emitters", 1), ("_disconnect_child_emitters", -1)):
        L, st = evented(U)
        E = U.E
        E.stubs.pop(f"{C}.{m}")
        ems, child, f, st = emitters(L, st, E)
        for kind, s, r in U.run(st, f"{C}.{m}", [L.lst, child]):
            U.oblige(f"{m} does not fail", s, z3.BoolVal(kind == "ret"))
            t = fresh_v("t")
            k = fresh_int("k_em")
            tk = to_term(ems.at(k))
            after = lambda t: zi(s.smap["@conn"](t))
            U.oblige(f"{m}: every signal of the child, once", s,
                     z3.Implies(z3.And(0 <= k, k < ems.zn()), after(tk) == (f(tk) + 1 if d > 0 else z3.If(f(tk) > 0, f(tk) - 1, 0))))
            notone = z3.Not(z3.And(V.is_fam(t), V.ff(t) == z3.simplify(to_term(ems.at(0))).arg(0), 0 <= V.fk(t), V.fk(t) < ems.zn()))
            U.oblige(f"{m}: no other signal", s, z3.Implies(notone, after(t) == f(t)))
            U.frame(m, st, s, {("s", "@conn")})


@unit(["C13"], "a child's event is re-emitted once with the child's index, the child, its signal and its arguments",
      ["EventedList._reemit_child_event"])
def u_reemit(U):
    E0 = U.E
    for relay in (False, True):
        for nargs in (0, 1, 2):
            if relay and nargs == 2:
                continue            # a relay emits one EmissionInfo (C10)
            L, st = evented(U)
            E = U.E
            base_schema(E)
            E.schema[("isinstance", f"{GRP}:SignalRelay")] = lambda E, st, v, relay=relay: relay
            E.schema[("SignalInstance", "instance")] = lambda E, st, v, ctx: [(st, obj)]
            obj = SV(fresh_v("child"), "any")
            cls = E.loader.cls(GRP, "SignalRelay") if relay else E.loader.cls(SIG, "SignalInstance")
            em = SV(fresh_v("emitter"), cls)
            st = st.assume(em.t != V.none)
            E.stubs[f"{SIG}:Signal.current_emitter"] = lambda E, st, ca, ctx, fn, em=em: [(st, em)]
            E.stubs[f"{SIG}:SignalInstance.instance"] = lambda E, st, ca, ctx, fn, obj=obj: [(st, obj)]
            w = fresh_int("idx")

            def index(E, st, ca, ctx, fn, L=L, w=w, obj=obj):
                E.obligation("the child is looked up in the list", st, lib.same(E, st, ca.pos[1], obj))
                E.raise_(st.g(absent=True), ctx, "ValueError")
                return [(st, SInt(w))]
            E.stubs["_collections_abc:Sequence.index"] = index
            args = [SV(fresh_v("arg"), "any") for _ in range(nargs)]
            inner = None
            if relay and nargs == 1:
                icls = E.loader.cls(GRP, "EmissionInfo")
                inner = (SV(fresh_v("member"), E.loader.cls(SIG, "SignalInstance")), SV(fresh_v("member_args"), "tuple"))
                outs = E.instantiate(st, icls, CallArgs(list(inner)), U.ctx(GRP))
                [(st, info)] = outs
                args = [info]
            for kind, s, r in U.run(st, f"{C}._reemit_child_event", [L.lst] + args):
                U.oblige("re-emitting does not fail", s, z3.BoolVal(kind == "ret"))
                got = s.ghost.get("child") or ()
                if s.ghost.get("absent"):
                    U.oblige("nothing is emitted for something not in the list", s, z3.BoolVal(not got))
                    continue
                U.oblige("exactly one child event", s, z3.BoolVal(len(got) == 1 and len(got[0]) == 4))
                if len(got) != 1 or len(got[0]) != 4:
                    continue
                i, o, e, a = got[0]
                U.oblige("with the child's index and the child", s, z3.And(lib.same(E, s, i, SInt(w)), lib.same(E, s, o, obj)))
                if inner is not None:
                    U.oblige("an event forwarded by the child's group is unwrapped", s, z3.And(lib.same(E, s, e, inner[0]), lib.same(E, s, a, inner[1])))
                else:
                    U.oblige("with the child's signal and its arguments", s, z3.And(lib.same(E, s, e, em), lib.same(E, s, a, tuple(args))))
                U.frame("_reemit_child_event", st, s, {("g", "child"), ("g", "nev"), ("g", "pend")})


@unit(["C13", "C21"], "a new list: its own events, the items given in order, the options given", ["EventedList.__init__"])
def u_init(U):
    L, st = evented(U)
    E = U.E
    src = item_seq("data")
    st = st.assume(src.zn() >= 0)
    st, dref = E.new_list(st, src)
    E.loop_specs["*"] = lambda _: {"cands": [lambda k: seq_sub(src, 0, zlen(k))]}
    h, ch = SBool(fresh_bool("hashable")), SBool(fresh_bool("child"))
    cls = E.loader.cls(EL, "EventedList")
    for args, kw in (([], {}), ([dref], {}), ([dref], {"hashable": h, "child_events": ch})):
        c = U.ctx(EL)
        for s, r in E.instantiate(st, cls, CallArgs(args, None, kw), c):
            U.functions.append(f"{C}.__init__")
            same_new(L, s, r, src if args else EMPTY, "the new list")
            want = (zb(h), zb(ch)) if kw else (z3.BoolVal(True), z3.BoolVal(False))
            U.oblige("the options are those given", s, z3.And(zb(s.f(r, "_hashable")) == want[0], zb(s.f(r, "_child_events")) == want[1]))
            untouched(L, s, "making another list", st)
        for s, e in c.sink:
            U.oblige("making a list of an iterable does not fail", s, False)


@unit(["C14"], "move: the item goes right before the destination (pre-move space); one moving, moved and reordered event",
      ["EventedList.move"])
def u_move(U):
    L, st = evented(U)
    E = U.E
    n = L.data0.zn()
    src, dst = SInt(fresh_int("src")), SInt(fresh_int("dst"))
    s0 = pos_of(L, src)
    d0 = z3.If(zi(dst) < 0, z3.If(zi(dst) + n + 1 < 0, 0, zi(dst) + n + 1), z3.If(zi(dst) > n, n, zi(dst)))
    noop = z3.Or(d0 == s0, d0 == s0 + 1)
    moved = seq_insert(seq_delete(L.data0, s0), z3.If(d0 > s0, d0 - 1, d0), L.data0.at(s0))
    for kind, s, r in U.run(st, f"{C}.move", [L.lst, src, dst]):
        if kind == "raise":
            U.oblige("move fails exactly for a source index out of range", s,
                     z3.And(z3.Not(in_range(L, src)), z3.BoolVal(U.exc_is(s, r, "IndexError") is True)))
            untouched(L, s, "a failing move", st)
            continue
        U.oblige("a source index in range can be moved", s, in_range(L, src))
        g = s.ghost
        U.oblige("move tells whether anything moved", s, E.as_bool(s, r) == z3.Not(noop) if not isinstance(r, bool) else z3.BoolVal(r) == z3.Not(noop))
        U.oblige("the item is right before the destination, the others in their order", s,
                 z3.If(noop, seq_eq(E, s, cur(L, s), L.data0), seq_eq(E, s, cur(L, s), moved)))
        U.oblige("the change was announced", s, z3.And(z3.BoolVal(g["pend"] is None), seq_eq(E, s, cur(L, s), g["last"])))
        U.oblige("exactly one moving, moved and reordered event; none when nothing moves", s,
                 z3.And(zi(g["nev"]) == z3.If(noop, 0, 3), zi(g["nmove"]) == z3.If(noop, 0, 1), zi(g["nreord"]) == z3.If(noop, 0, 1)))
        U.oblige("no child is connected or disconnected", s, z3.And(g["conn"].zn() == 0, g["disc"].zn() == 0))
        frame(L, "move", st, s)
    U.must_fail("moving is reachable", st, z3.Not(z3.And(in_range(L, src), z3.Not(noop))))
    U.must_fail("not moving is reachable", st, z3.Not(z3.And(in_range(L, src), noop)))



@unit(["C14"], "move_multiple: the planned moves are done in order with no event in between but moving/moved; then one reordered",
      ["EventedList.move_multiple"])
def u_move_multiple(U):
    L, st = evented(U)
    E = U.E
    pn = fresh_int("n_plan")
    ps, pd = (fresh_fun(x, z3.IntSort(), z3.IntSort()) for x in ("plan_src", "plan_dst"))
    st = st.assume(pn >= 0)
    plan = Seq(pn, lambda k: (SInt(ps(zlen(k))), SInt(pd(zlen(k)))))
    sources, dest = SV(fresh_v("sources"), "any"), SInt(fresh_int("dest"))
    st = st.g(nplans=0, applied=0)

    def plan_(E, st, ca, ctx, fn):
        a = list(ca.pos) + [ca.kw[k] for k in ("sources", "dest_index") if k in ca.kw]
        E.obligation("the moves are planned for these sources and this destination", st,
                     z3.BoolVal(len(a) == 3 and a[0] == L.lst) if not (len(a) == 3 and a[0] == L.lst) else
                     z3.And(lib.same(E, st, a[1], sources), lib.same(E, st, a[2], dest)))
        E.obligation("the moves are planned before any is done", st, z3.And(zi(st.ghost["applied"]) == 0, zi(st.ghost["nev"]) == 0))
        st = st.g(nplans=mkint(zi(st.ghost["nplans"]) + 1))
        for exc in ("IndexError", "TypeError"):
            E.raise_(st.assume(fresh_bool("plan_fails")), ctx, exc, [])
        return [E.new_list(st, plan)]
    E.stubs[f"{C}._move_plan"] = plan_

    def move_(E, st, ca, ctx, fn):
        a = list(ca.pos) + [ca.kw[k] for k in ("src_index", "dest_index") if k in ca.kw]
        k = zi(st.ghost["applied"])
        ok = len(a) == 3 and a[0] == L.lst
        E.obligation("a planned move is done, in its order", st,
                     z3.And(k < pn, zi(a[1]) == ps(k), zi(a[2]) == pd(k)) if ok else z3.BoolVal(False))
        E.obligation("only reordered is held back while the moves are done", st, z3.BoolVal(tuple(st.ghost.get("blocked", ())) == ("reordered",)))
        return [(st.g(applied=mkint(k + 1)), SBool(fresh_bool("moved")))]
    E.stubs[f"{C}.move"] = move_
    E.loop_specs["*"] = lambda L_: {"forms": {}, "inv": lambda s, m: [("so many moves are done", zi(s.ghost["applied"]) == m)]}
    for kind, s, r in U.run(st, f"{C}.move_multiple", [L.lst, sources, dest]):
        g = s.ghost
        if kind == "raise":
            U.oblige("move_multiple fails only when planning fails", s, z3.And(zi(g["applied"]) == 0, zi(g["nplans"]) == 1))
            untouched(L, s, "a failing move_multiple", st)
            continue
        U.oblige("the moves are planned once, and all done", s, z3.And(zi(g["nplans"]) == 1, zi(g["applied"]) == pn))
        U.oblige("exactly one reordered event", s, z3.And(zi(g["nreord"]) == 1, zi(g["nev"]) == 1))
        U.oblige("the number of moves is returned", s, zi(r) == pn)
        U.frame("move_multiple", st, s, GH | {("g", "nplans"), ("g", "applied")})
    U.must_fail("reachable", st, z3.Not(pn > 3))


@unit(["C14"], "move plan: done in order, the planned moves put the sources at the destination, in the order given, "
      "and leave the others in theirs", ["EventedList._move_plan"], timeout=240)
def u_move_plan(U):
    L, st = evented(U)
    E = U.E
    n = L.data0.zn()
    I = z3.IntSort()
    sn = fresh_int("n_sources")
    SRC = fresh_fun("source", I, V)
    ISSL, ISINT = fresh_fun("is_slice", V, z3.BoolSort()), V.is_vint
    E.schema[("movesource", "as_int")] = lambda t: ISINT(t)
    CNT, IDX = fresh_fun("slice_count", V, I), fresh_fun("slice_idx", V, I, I)
    LEN, TM = fresh_fun("len_sources", I, I), fresh_fun("to_move", I, I)
    v0, k0, j0 = z3.Const("v_mp", V), z3.Int("k_mp"), z3.Int("j_mp")
    norm = lambda x: z3.If(x < 0, x + n, x)
    st = st.assume(sn >= 0, LEN(0) == 0,
                   z3.ForAll([v0], z3.And(z3.Not(z3.And(ISSL(v0), ISINT(v0))), CNT(v0) >= 0)),
                   z3.ForAll([v0, k0], z3.Implies(z3.And(0 <= k0, k0 < CNT(v0)), z3.And(0 <= IDX(v0, k0), IDX(v0, k0) < n))))
    sources = Seq(sn, lambda k: SV(SRC(zlen(k)), "movesource"))
    st, srcref = E.new_list(st, sources)
    dest = SInt(fresh_int("dest"))
    E.schema[("movesource", "isinstance")] = lambda E, st, v, cname: ISSL(v.t) if cname == "builtins.slice" else ISINT(v.t) if cname == "builtins.int" else None
    E.schema[("movesource", "indices")] = lambda E, st, v, ctx: [(st, Partial(Ext("source_indices"), [v], {}))]
    lo, hi, step = (fresh_fun(x, V, I) for x in ("start", "stop", "step"))

    def indices(E, st, ca, ctx, fn):
        E.obligation("a slice is resolved for the length of the list", st, zi(ca.pos[-1]) == n)
        t = ca.pos[0].t
        return [(st, (SInt(lo(t)), SInt(hi(t)), SInt(step(t))))]
    E.stubs["source_indices"] = indices
    rng = lib.FUNCS["builtins.range"]

    def range_(E, st, ca, ctx, fn):
        pos = list(ca.pos)
        if ca.star is not None:
            pos += list(ca.star.items if isinstance(ca.star, Seq) and ca.star.items is not None else ca.star)
        if len(pos) == 3 and all(isinstance(x, SInt) and x.t.decl().name() == f.name() for x, f in zip(pos, (lo, hi, step))):
            t = pos[0].t.arg(0)
            return [(st, Seq(CNT(t), lambda k: SInt(IDX(t, zlen(k)))))]
        return rng(E, st, CallArgs(pos), ctx)
    E.stubs["builtins.range"] = range_
    E.assumptions.add("slice.indices/range select the positions of a slice, within the list and strictly monotonic; list[slice] and list[slice] = v are the builtin operations")

    # the distinct positions, in order of first occurrence
    tn, T, FI, WHERE = fresh_int("n_distinct"), fresh_fun("distinct", I, I), fresh_fun("first", I, I), fresh_fun("where", I, I)

    def fromkeys(E, st, ca, ctx, fn):
        out = []
        for s, sq in lib.iterate(E, st, ca.pos[0], ctx):
            m = sq.zn()
            s = s.assume(0 <= tn, tn <= m,
                         z3.ForAll([k0], z3.Implies(z3.And(0 <= k0, k0 < tn), z3.And(T(k0) == zi(sq.at(FI(k0))), 0 <= FI(k0), FI(k0) < m, WHERE(T(k0)) == k0)), patterns=[T(k0)]),
                         z3.ForAll([k0], z3.Implies(z3.And(0 <= k0, k0 < m), z3.And(0 <= WHERE(zi(sq.at(k0))), WHERE(zi(sq.at(k0))) < tn,
                                                                                    T(WHERE(zi(sq.at(k0)))) == zi(sq.at(k0)))))).g(tm=sq)
            out.append((s, Seq(tn, lambda k: SInt(T(zlen(k))))))
        return out
    E.stubs["builtins.dict.fromkeys"] = fromkeys
    E.assumptions.add("dict.fromkeys(items): the distinct items in the order of their first occurrence")

    # what the moves planned so far make of the list
    def on_yield(E, st, v, ctx):
        sim = st.ghost["sim"]
        if not (isinstance(v, tuple) and len(v) == 2):
            E.obligation("a planned move is a pair of indices", st, z3.BoolVal(False))
            return st
        a, b = zi(v[0]), zi(v[1])
        E.obligation("a planned move names an item, a destination, and moves something", st, z3.And(0 <= a, a < n, 0 <= b, b <= n, b != a, b != a + 1))
        return st.g(sim=seq_insert(seq_delete(sim, a), z3.If(b > a, b - 1, b), sim.at(a)))
    E.on_yield = on_yield
    d0 = z3.If(zi(dest) < 0, z3.If(zi(dest) + n + 1 < 0, 0, zi(dest) + n + 1), z3.If(zi(dest) > n, n, zi(dest)))
    ident = Seq(n, lambda k: SInt(zlen(k)))
    st = st.g(sim=ident, tm=None)

    O, POS, DI = fresh_fun("order", I, I, I), fresh_fun("pos", I, I, I), fresh_fun("insertion", I, I)
    st = st.assume(DI(0) == d0, z3.ForAll([k0], z3.And(O(0, k0) == k0, POS(0, k0) == k0)))

    def facts1(m):
        t = SRC(m)
        return [LEN(m + 1) == LEN(m) + z3.If(ISSL(t), CNT(t), 1),
                z3.ForAll([j0], z3.Implies(z3.And(0 <= j0, j0 < z3.If(ISSL(t), CNT(t), 1)),
                                           TM(LEN(m) + j0) == z3.If(ISSL(t), IDX(t, j0), norm(V.vi(t)))), patterns=[TM(LEN(m) + j0)]),
                z3.ForAll([j0], z3.Implies(z3.And(LEN(m) <= j0, j0 < LEN(m + 1)),
                                           TM(j0) == z3.If(ISSL(t), IDX(t, j0 - LEN(m)), norm(V.vi(t)))), patterns=[TM(j0)])]

    def inv1(s, m):
        return [("lengths", LEN(m) >= 0),
                ("positions within the list", z3.ForAll([k0], z3.Implies(z3.And(0 <= k0, k0 < LEN(m)), z3.And(0 <= TM(k0), TM(k0) < n)), patterns=[TM(k0)]))]

    def facts2(m):
        sr = POS(m, T(m))
        ins = DI(m + 1) - 1
        k1 = z3.If(k0 > ins, k0 - 1, k0)
        p1 = z3.If(POS(m, k0) > sr, POS(m, k0) - 1, POS(m, k0))
        return [DI(m + 1) == z3.If(DI(m) <= sr, DI(m) + 1, DI(m)),
                z3.ForAll([k0], O(m + 1, k0) == z3.If(k0 == ins, T(m), z3.If(k1 >= sr, O(m, k1 + 1), O(m, k1))), patterns=[O(m + 1, k0)]),
                z3.ForAll([k0], POS(m + 1, k0) == z3.If(k0 == T(m), ins, z3.If(p1 >= ins, p1 + 1, p1)), patterns=[POS(m + 1, k0)])]

    def inv2(s, m):
        d = DI(m)
        return [("every position holds one item", z3.ForAll([k0], z3.Implies(z3.And(0 <= k0, k0 < n),
                                                            z3.And(0 <= O(m, k0), O(m, k0) < n, POS(m, O(m, k0)) == k0)), patterns=[O(m, k0)])),
                ("every item is somewhere", z3.ForAll([k0], z3.Implies(z3.And(0 <= k0, k0 < n),
                                                      z3.And(0 <= POS(m, k0), POS(m, k0) < n, O(m, POS(m, k0)) == k0)), patterns=[POS(m, k0)])),
                ("insertion point", z3.And(0 <= m, m <= tn, m <= d, d <= n)),
                ("the items moved are before the insertion point, in order",
                 z3.ForAll([k0], z3.Implies(z3.And(d - m <= k0, k0 < d), O(m, k0) == T(k0 - d + m)), patterns=[O(m, k0)])),
                ("what comes before them was before the destination, and is not among them",
                 z3.ForAll([k0], z3.Implies(z3.And(0 <= k0, k0 < d - m), O(m, k0) < d0), patterns=[O(m, k0)])),
                ("what comes after them was at or after the destination, and is not among them",
                 z3.ForAll([k0], z3.Implies(z3.And(d <= k0, k0 < n), O(m, k0) >= d0), patterns=[O(m, k0)])),
                ("before them nothing changed its order",
                 z3.ForAll([k0, j0], z3.Implies(z3.And(0 <= k0, k0 < j0, j0 < d - m), O(m, k0) < O(m, j0)), patterns=[z3.MultiPattern(O(m, k0), O(m, j0))])),
                ("after them nothing changed its order",
                 z3.ForAll([k0, j0], z3.Implies(z3.And(d <= k0, k0 < j0, j0 < n), O(m, k0) < O(m, j0)), patterns=[z3.MultiPattern(O(m, k0), O(m, j0))]))]

    def spec(Lp):
        if Lp.st0.ghost["tm"] is None:
            return {"cands": [lambda m: Seq(LEN(zlen(m)), lambda k: SInt(TM(zlen(k))))], "facts": lambda m: facts1(zlen(m)), "inv": lambda s, m: inv1(s, zlen(m))}
        return {"cands": [lambda m: Seq(n, lambda k: SInt(O(zlen(m), zlen(k)))), lambda m: SInt(DI(zlen(m)))],
                "facts": lambda m: facts2(zlen(m)), "inv": lambda s, m: inv2(s, zlen(m))}
    E.loop_specs["*"] = spec
    for kind, s, r in U.run(st, f"{C}._move_plan", [L.lst, srcref, dest]):
        g = s.ghost
        if kind == "raise":
            j = z3.Int("j_bad")
            bad = z3.Exists([j], z3.And(0 <= j, j < sn, z3.If(ISINT(SRC(j)), z3.Not(z3.And(-n <= V.vi(SRC(j)), V.vi(SRC(j)) < n)), z3.Not(ISSL(SRC(j))))))
            U.oblige("planning fails only for a source that is not an index of the list or a slice", s,
                     z3.And(bad, z3.BoolVal(U.exc_is(s, r, "IndexError") is True or U.exc_is(s, r, "TypeError") is True)))
            U.oblige("a failing plan: nothing changed and nothing was emitted", s, z3.And(zi(g["nev"]) == 0, seq_eq(E, s, cur(L, s), L.data0)))
            continue
        U.oblige("planning does not touch the list", s, z3.And(seq_eq(E, s, cur(L, s), L.data0), zi(g["nev"]) == 0))
        sim = g["sim"]
        k, j = fresh_int("k"), fresh_int("j")
        p = DI(tn)
        tm = g["tm"]
        U.oblige("the positions to move are those of the sources, one after the other", s,
                 z3.And(z3.BoolVal(tm is not None), tm.zn() == LEN(sn), z3.Implies(z3.And(0 <= k, k < LEN(sn)), zi(tm.at(k)) == TM(k))) if tm is not None else z3.BoolVal(False))
        at = lambda x: zi(sim.at(x))
        within = lambda *c: z3.And(*c)
        U.oblige("done in order, the moves put the sources together, in the order given", s,
                 z3.And(tn <= p, p <= n, sim.zn() == n, z3.Implies(within(p - tn <= k, k < p), at(k) == T(k - p + tn))))
        U.oblige("every item is in exactly one place", s,
                 z3.Implies(within(0 <= k, k < n), z3.And(0 <= at(k), at(k) < n, 0 <= POS(tn, k), POS(tn, k) < n, at(POS(tn, k)) == k,
                                                          z3.Implies(within(0 <= j, j < n, j != k), at(j) != at(k)))))
        U.oblige("the sources are right before what was at the destination: before them is what was before it, after them what was not", s,
                 z3.And(z3.Implies(within(0 <= k, k < p - tn), at(k) < d0), z3.Implies(within(p <= k, k < n), at(k) >= d0)))
        U.oblige("all other items keep their order", s,
                 z3.Implies(z3.Or(within(0 <= k, k < j, j < p - tn), within(p <= k, k < j, j < n)), at(k) < at(j)))
    U.must_fail("reachable", st, z3.Not(sn > 3))
