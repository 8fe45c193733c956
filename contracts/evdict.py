"""C15: EventedDict (and TypedMutableMapping with the MutableMapping methods it inherits).

The dict under contract is an arbitrary one: any keys, values and insertion order, any allowed types.  The specification of
an operation is the same operation on a builtin dict with the same contents.  The monitor keeps `last`, the contents the
events emitted so far account for.

Keys are taken up to equality (two equal keys are one key), hashing and comparing them is assumed not to fail.
Trusted: the builtin dict operations on `_dict` (pyvc/lib.py)."""
from .common import *
from pyvc import loops

ED = "psygnal.containers._evented_dict"
T = f"{ED}:TypedMutableMapping"
C = f"{ED}:EventedDict"
EVENTS = ("adding", "added", "changing", "changed", "removing", "removed")
EVF = {nm: z3.Function("devent_" + nm, V, V) for nm in EVENTS}
GH = {("g", k) for k in ("last", "pend", "nev")}


class DD:
    pass


def dict_eq(E, s, a, b):
    return loops.same_data(E, s, a, b)


def evdict(U, cls="EventedDict", types=True):
    E = U.E
    D = DD()
    D.E, D.U = E, U
    st = St()
    st, D.d0 = lib.fresh_dict(st, "d", "any")
    st, D.dref = E.alloc(st, Ext("builtins.dict"), data=D.d0, kind="dict")
    D.types = fresh_seq("types", cls="type")
    st = st.assume(D.types.zn() >= 0)
    D.ev = SV(fresh_v("events"), "dictevents")
    fields = {"_dict": D.dref, "_basetypes": D.types}
    if cls == "EventedDict":
        fields["events"] = D.ev
    st, D.obj = E.alloc(st, E.loader.cls(ED, cls), fields)
    D.evented = cls == "EventedDict"
    st = st.g(last=D.d0, pend=None, nev=0)
    for nm in EVENTS:
        E.schema[("dictevents", nm)] = (lambda nm: lambda E, st, v, ctx: [(st, SV(EVF[nm](v.t), "devt_" + nm))])(nm)
        E.schema[("devt_" + nm, "emit")] = (lambda nm: lambda E, st, v, ctx: [(st, Partial(Ext("devt.emit"), [nm, v], {}))])(nm)
        E.schema[("devt_" + nm, "()")] = (lambda nm: lambda E, st, f, ca, ctx: emit(E, st, CallArgs([nm, f] + list(ca.pos), ca.star, ca.kw), ctx, None))(nm)

    def emit(E, st, ca, ctx, fn):
        nm, who, args = ca.pos[0], ca.pos[1], list(ca.pos[2:])
        if ca.star is not None or ca.kw:
            raise Unsupported("event emitted with * arguments")
        if is_lit(z3.simplify(who.t == EVF[nm](D.ev.t))) is not True:
            return [(st, None)]
        return [(monitor(D, st, nm, args), None)]
    E.stubs["devt.emit"] = emit
    E.assumptions.add("listeners of a dict's events neither raise nor change the dict while an operation on it runs")
    E.assumptions.add("keys are hashable, and comparing them does not fail")

    def make(E, st, ca, ctx, cls):
        e = fresh_v("newevents")
        return [(st.assume(e != D.ev.t, *[EVF[nm](e) != EVF[nm](D.ev.t) for nm in EVENTS]), SV(e, "dictevents"))]
    E.stubs[f"{ED}:DictEvents"] = make
    return D, st


def cur(D, s):
    return lib.dict_to_s(D.E, s.d(s.f(D.obj, "_dict")))


def monitor(D, st, nm, args):
    E = D.E
    data, last, pend = cur(D, st), st.ghost["last"], st.ghost["pend"]
    st = st.g(nev=mkint(zi(st.ghost["nev"]) + 1))

    def ob(name, goal):
        E.obligation(f"{nm}: {name}", st, goal)
    arity = {"adding": 1, "changing": 1, "removing": 1, "added": 2, "removed": 2, "changed": 3}[nm]
    ob("is emitted with its arguments", z3.BoolVal(len(args) == arity))
    if len(args) != arity:
        return st.g(pend=None, last=data)
    k = args[0]
    kt = lib.key_term(k)
    ing = {"added": "adding", "changed": "changing", "removed": "removing"}.get(nm)
    if ing is None:
        ob("no announced change is outstanding", z3.BoolVal(pend is None))
        ob("comes before its change, all earlier changes having been announced", dict_eq(E, st, data, last))
        ob("the key is not there yet" if nm == "adding" else "the key is there", z3.Not(last.has(kt)) if nm == "adding" else last.has(kt))
        return st.g(pend=(nm, k))
    ok = isinstance(pend, tuple) and pend[0] == ing
    ob(f"follows its {ing} event", z3.BoolVal(ok))
    if not ok:
        return st.g(pend=None, last=data)
    ob("has the key announced", kt == lib.key_term(pend[1]))
    if nm in ("changed", "removed"):
        ob("has the value that was there", lib.same(E, st, args[1], last.val(kt)))
    want = lib.dict_del(E, st, last, k) if nm == "removed" else lib.dict_set(E, st, last, k, args[-1])
    ob("comes after exactly this change", dict_eq(E, st, data, want))
    return st.g(pend=None, last=data)


def done(D, s, what, data, nev=None):
    U, E = D.U, D.E
    if D.evented:
        U.oblige(f"{what}: every change was announced, in full", s, z3.And(z3.BoolVal(s.ghost["pend"] is None), dict_eq(E, s, cur(D, s), s.ghost["last"])))
    U.oblige(f"{what}: the contents are those of a builtin dict", s, dict_eq(E, s, cur(D, s), data))
    if nev is not None and D.evented:
        U.oblige(f"{what}: the number of events", s, zi(s.ghost["nev"]) == nev)


def untouched(D, s, what):
    D.U.oblige(f"{what}: nothing changed and nothing was emitted", s, z3.And(zi(s.ghost["nev"]) == 0, dict_eq(D.E, s, cur(D, s), D.d0)))


def no_change(D, s, what):
    """contents as before; an announced change may have failed"""
    D.U.oblige(f"{what}: nothing changed", s, dict_eq(D.E, s, cur(D, s), D.d0))


def allowed(D, v):
    k = z3.Int("k_ty")
    f = z3.Function("isinstance2", V, V, z3.BoolSort())
    return z3.Or(D.types.zn() == 0, z3.Exists([k], z3.And(0 <= k, k < D.types.zn(), f(to_term(v), D.types.at(k).t))))


def frame(D, what, pre, s, extra=()):
    D.U.frame(what, pre, s, GH | {("d", D.dref.oid)} | set(extra))


def key(name="key"):
    return SV(fresh_v(name), "atom")


def val(name="value"):
    return SV(fresh_v(name), "any")


def meth(D, st, name):
    return BM(D.E.class_attr_fn(st, D.obj, name), D.obj)


def raises(U, s, r, name):
    return z3.BoolVal(U.exc_is(s, r, name) is True)


BOTH = ("EventedDict", "TypedMutableMapping")


@unit("C15", "item assignment: dict semantics, a value of a type not allowed is refused; one -ing and one -ed event unless the value is identical",
      ["EventedDict.__setitem__", "TypedMutableMapping.__setitem__", "TypedMutableMapping._type_check"])
def u_setitem(U):
    for cls in BOTH:
        D, st = evdict(U, cls)
        E = U.E
        k, v = key(), val()
        kt = k.t
        had = D.d0.has(kt)
        ident = z3.And(had, lib.same(E, st, v, D.d0.val(kt)))
        for kind, s, r in U.run(st, f"{ED}:{cls}.__setitem__", [D.obj, k, v]):
            if kind == "raise":
                U.oblige("assignment fails exactly for a value of a type not allowed", s, z3.And(z3.Not(allowed(D, v)), raises(U, s, r, "TypeError")))
                no_change(D, s, "a refused value")
                if cls == "EventedDict":
                    U.oblige("a refused value is not announced as stored", s, z3.BoolVal(s.ghost["pend"] is not None or is_lit(z3.simplify(zi(s.ghost["nev"]) == 0)) is True))
                continue
            U.oblige("an allowed value is accepted", s, z3.Or(allowed(D, v), ident) if cls == "EventedDict" else allowed(D, v))
            U.oblige("nothing is returned", s, z3.BoolVal(r is None))
            done(D, s, "assignment", lib.dict_set(E, s, D.d0, k, v), z3.If(ident, 0, 2))
            frame(D, "__setitem__", st, s)
        U.must_fail("a key present is reachable", st, z3.Not(z3.And(had, allowed(D, v), z3.Not(ident))))
        U.must_fail("a key absent is reachable", st, z3.Not(z3.And(z3.Not(had), allowed(D, v))))
        U.must_fail("a value can be refused", st, allowed(D, v))


@unit("C15", "item deletion: dict semantics, one removing and one removed event", ["EventedDict.__delitem__", "TypedMutableMapping.__delitem__"])
def u_delitem(U):
    for cls in BOTH:
        D, st = evdict(U, cls)
        E = U.E
        k = key()
        had = D.d0.has(k.t)
        for kind, s, r in U.run(st, f"{ED}:{cls}.__delitem__", [D.obj, k]):
            if kind == "raise":
                U.oblige("deletion fails exactly for a key that is not there", s, z3.And(z3.Not(had), raises(U, s, r, "KeyError")))
                untouched(D, s, "a failing deletion")
                continue
            U.oblige("a key that is there can be deleted", s, z3.And(had, z3.BoolVal(r is None)))
            done(D, s, "deletion", lib.dict_del(E, s, D.d0, k), 2)
            frame(D, "__delitem__", st, s)
        U.must_fail("reachable", st, z3.Not(had))


@unit("C15", "lookup, membership, length, iteration, get: as a dict, without any effect",
      ["TypedMutableMapping.__getitem__", "TypedMutableMapping.__len__", "TypedMutableMapping.__iter__", "Mapping.__contains__", "Mapping.get"])
def u_read(U):
    for cls in BOTH:
        D, st = evdict(U, cls)
        E = U.E
        k, dflt = key(), val("default")
        kt, d = k.t, D.d0
        had = d.has(kt)

        def pure(what, s):
            U.oblige(f"{what} changes nothing", s, zi(s.ghost["nev"]) == 0)
            U.frame(what, st, s, set())
        for kind, s, r in U.run(st, meth(D, st, "__getitem__"), [k]):
            pure("lookup", s)
            if kind == "raise":
                U.oblige("lookup fails exactly for a key that is not there", s, z3.And(z3.Not(had), raises(U, s, r, "KeyError")))
            else:
                U.oblige("lookup returns the value of the key", s, z3.And(had, lib.same(E, s, r, d.val(kt))))
        for kind, s, r in U.run(st, meth(D, st, "__contains__"), [k]):
            pure("membership", s)
            U.oblige("membership is that of the dict", s, z3.And(z3.BoolVal(kind == "ret"), (z3.BoolVal(r) if isinstance(r, bool) else zb(r)) == had))
        for kind, s, r in U.run(st, meth(D, st, "__len__"), []):
            pure("length", s)
            U.oblige("the length is that of the dict", s, z3.And(z3.BoolVal(kind == "ret"), zi(r) == d.n))
        for args in ([k], [k, dflt]):
            for kind, s, r in U.run(st, meth(D, st, "get"), args):
                pure("get", s)
                want = dflt if len(args) == 2 else None
                U.oblige("get returns the value of the key, or the default", s, z3.And(z3.BoolVal(kind == "ret"), z3.If(had, lib.same(E, s, r, d.val(kt)), lib.same(E, s, r, want))))
        for kind, s, r in U.run(st, meth(D, st, "__iter__"), []):
            pure("iteration", s.put(r.oid, None) if False else s)
            outs = lib.iterate(E, s, r, U.ctx(ED)) if kind == "ret" else []
            U.oblige("a dict can be iterated", s, z3.BoolVal(bool(outs)))
            for s2, sq in outs:
                U.oblige("iteration yields the keys in order", s2, lib.same_seq(E, s2, sq, d.keys))


@unit("C15", "pop: dict semantics, with and without default", ["MutableMapping.pop"])
def u_pop(U):
    for cls in BOTH:
        D, st = evdict(U, cls)
        E = U.E
        k, dflt = key(), val("default")
        st = st.assume(dflt.t != to_term(Ext("_collections_abc:MutableMapping.__marker")))      # private to pop
        had = D.d0.has(k.t)
        for args in ([k], [k, dflt]):
            for kind, s, r in U.run(st, meth(D, st, "pop"), args):
                if kind == "raise":
                    U.oblige("pop fails exactly for a key that is not there, without default", s,
                             z3.And(z3.BoolVal(len(args) == 1), z3.Not(had), raises(U, s, r, "KeyError")))
                    untouched(D, s, "a failing pop")
                    continue
                if len(args) == 1:
                    U.oblige("pop without default returns the value of a key that is there", s, had)
                U.oblige("pop returns the value, or the default", s, z3.If(had, lib.same(E, s, r, D.d0.val(k.t)), lib.same(E, s, r, args[-1])))
                now, gone = cur(D, s), lib.dict_del(E, s, D.d0, k)
                U.oblige("pop removes the key", s, z3.If(had, dict_eq(E, s, now, gone), dict_eq(E, s, now, D.d0)))
                done(D, s, "pop", now, z3.If(had, 2, 0))
                frame(D, "pop", st, s)
        U.must_fail("reachable", st, z3.Not(had))


@unit("C15", "popitem: removes and returns an item; KeyError when empty", ["MutableMapping.popitem"])
def u_popitem(U):
    for cls in BOTH:
        D, st = evdict(U, cls)
        E = U.E
        for kind, s, r in U.run(st, meth(D, st, "popitem"), []):
            if kind == "raise":
                U.oblige("popitem fails exactly on an empty dict", s, z3.And(D.d0.n == 0, raises(U, s, r, "KeyError")))
                untouched(D, s, "a failing popitem")
                continue
            U.oblige("popitem returns a pair", s, z3.BoolVal(isinstance(r, tuple) and len(r) == 2))
            kt = lib.key_term(r[0])
            U.oblige("popitem returns an item of the dict", s, z3.And(D.d0.n > 0, D.d0.has(kt), lib.same(E, s, r[1], D.d0.val(kt))))
            done(D, s, "popitem", lib.dict_del(E, s, D.d0, r[0]), 2)
            frame(D, "popitem", st, s)
        U.must_fail("reachable", st, D.d0.n == 0)


@unit("C15", "clear: empty afterwards, every item announced", ["MutableMapping.clear"])
def u_clear(U):
    for cls in BOTH:
        D, st = evdict(U, cls)
        E = U.E
        d = D.d0

        def left(m):
            m = zlen(m)
            return DictS(lambda t: z3.And(d.has(t), d.pos(t) >= m), d.val, d.n - m, seq_sub(d.keys, m, d.n - m), lambda t: d.pos(t) - m)
        E.loop_specs["*"] = lambda _: {"cands": [left], "inv": lambda s, m: [("not more is removed than there is", zlen(m) <= d.n)]}
        for kind, s, r in U.run(st, meth(D, st, "clear"), []):
            U.oblige("clear does not fail and returns None", s, z3.BoolVal(kind == "ret" and r is None))
            t = fresh_v("t")
            now = cur(D, s)
            U.oblige("the dict is empty", s, z3.And(now.n == 0, z3.Not(now.has(t))))
            done(D, s, "clear", now, 2 * d.n)
            frame(D, "clear", st, s)


@unit("C15", "setdefault: the value there, else the default is stored", ["MutableMapping.setdefault"])
def u_setdefault(U):
    for cls in BOTH:
        D, st = evdict(U, cls)
        E = U.E
        k, v = key(), val()
        had = D.d0.has(k.t)
        for args in ([k, v], [k]):
            dv = args[1] if len(args) == 2 else None
            for kind, s, r in U.run(st, meth(D, st, "setdefault"), args):
                if kind == "raise":
                    U.oblige("setdefault fails exactly when the default is to be stored and is of a type not allowed", s,
                             z3.And(z3.Not(had), z3.Not(allowed(D, dv)), raises(U, s, r, "TypeError")))
                    no_change(D, s, "a refused default")
                    continue
                U.oblige("setdefault returns the value of the key", s, z3.If(had, lib.same(E, s, r, D.d0.val(k.t)), lib.same(E, s, r, dv)))
                now = cur(D, s)
                U.oblige("the default is stored exactly when the key was not there", s,
                         z3.If(had, dict_eq(E, s, now, D.d0), z3.And(allowed(D, dv), dict_eq(E, s, now, lib.dict_set(E, s, D.d0, k, dv)))))
                done(D, s, "setdefault", now, z3.If(had, 0, 2))
                frame(D, "setdefault", st, s)


def update_by(D, U, st, what, n, kat, vat, args, kw=None, kwn=0):
    """run update(*args, **kw): n pairs (kat(m), vat(m)) stored one after the other"""
    E = U.E
    rec = lib.DictRec(D.d0, lambda d, m: lib.dict_set(E, st, d, kat(m), vat(m)))
    st = st.assume(*rec.base())
    E.loop_specs["*"] = lambda _: {"cands": [rec.at], "facts": rec.facts}
    for kind, s, r in U.run(st, meth(D, st, "update"), args, kw or {}):
        if kind == "raise":
            j = z3.Int("j_bad")
            U.oblige(f"{what} fails only for a value of a type not allowed", s,
                     z3.And(raises(U, s, r, "TypeError"), z3.Exists([j], z3.And(0 <= j, j < n, z3.Not(allowed(D, vat(j)))))))
            continue
        U.oblige(f"{what} returns None", s, z3.BoolVal(r is None))
        done(D, s, what, rec.at(n))
        frame(D, "update", st, s)


@unit("C15", "update from a mapping, an object with keys(), an iterable of pairs, keyword arguments: each pair stored in turn",
      ["MutableMapping.update"], timeout=240)
def u_update(U):
    for cls in BOTH:
        for form in ("mapping", "keys", "pairs"):
            D, st = evdict(U, cls)
            E = U.E
            if form == "mapping":
                st, o = lib.fresh_dict(st, "o", "any")
                st, oref = E.alloc(st, Ext("builtins.dict"), data=o, kind="dict")
                n, kat, vat = o.n, (lambda m: o.keys.at(m)), (lambda m: o.val(o.keys.at(m).t))
            elif form == "pairs":
                n, ks, vs = fresh_int("n_pairs"), fresh_fun("pair_key", z3.IntSort(), V), fresh_fun("pair_val", z3.IntSort(), V)
                st = st.assume(n >= 0)
                kat, vat = (lambda m: SV(ks(zlen(m)), "atom")), (lambda m: SV(vs(zlen(m)), "any"))
                st, oref = E.new_list(st, Seq(n, lambda m: (kat(m), vat(m))))
            else:
                n, ks, lk = fresh_int("n_keys"), fresh_fun("obj_key", z3.IntSort(), V), fresh_fun("obj_val", V, V)
                st = st.assume(n >= 0)
                kat, vat = (lambda m: SV(ks(zlen(m)), "atom")), (lambda m: SV(lk(ks(zlen(m))), "any"))
                oref = SV(fresh_v("obj"), "haskeys")
                E.schema[("haskeys", "isinstance")] = lambda E, st, v, cname: False
                E.schema[("haskeys", "keys")] = lambda E, st, v, ctx: [(st, Partial(Ext("obj.keys"), [v], {}))]
                E.schema[("hasattr", "keys")] = lambda E, st, o, ctx: [(st, isinstance(o, SV))]
                E.stubs["obj.keys"] = lambda E, st, ca, ctx, fn: [E.new_list(st, Seq(n, kat))]
                E.schema[("haskeys", "[]")] = lambda E, st, o, k, ctx: [(st, SV(lk(lib.key_term(k)), "any"))]
            update_by(D, U, st, f"update({form})", n, kat, vat, [oref])


@unit("C15", "update with keyword arguments, also together with a mapping: each pair stored in turn", ["MutableMapping.update"], timeout=240)
def u_update_kw(U):
    for cls in BOTH:
        D, st = evdict(U, cls)
        E = U.E
        v1, v2 = val("v1"), val("v2")
        want = lib.dict_set(E, st, lib.dict_set(E, st, D.d0, "k1", v1), "k2", v2)
        for kind, s, r in U.run(st, meth(D, st, "update"), [], {"k1": v1, "k2": v2}):
            if kind == "raise":
                U.oblige("update fails only for a value of a type not allowed", s,
                         z3.And(raises(U, s, r, "TypeError"), z3.Not(z3.And(allowed(D, v1), allowed(D, v2)))))
                continue
            U.oblige("update returns None", s, z3.BoolVal(r is None))
            done(D, s, "update", want)
            frame(D, "update", st, s)


def new_dict(D, pre, s, r, what, data, types):
    U, E = D.U, D.E
    U.oblige(f"{what} is a new one", s, z3.BoolVal(isinstance(r, Ref) and r != D.obj and s.obj(r).cls is s.obj(D.obj).cls))
    nd = s.f(r, "_dict")
    U.oblige(f"{what} has its own contents", s, z3.BoolVal(isinstance(nd, Ref) and nd.oid not in pre.heap))
    U.oblige(f"{what} has the items given", s, dict_eq(E, s, lib.dict_to_s(E, s.d(nd)), data))
    U.oblige(f"{what} allows the types given", s, lib.same_seq(E, s, s.f(r, "_basetypes"), types) if types is not None else z3.BoolVal(True))
    if D.evented:
        U.oblige(f"{what} has its own events", s, z3.BoolVal(isinstance(s.f(r, "events"), SV)) if not isinstance(s.f(r, "events"), SV) else s.f(r, "events").t != D.ev.t)


def replay(D, st, o):
    """the dict made by storing the items of `o` in order in an empty one is `o`"""
    def part(m):
        m = zlen(m)
        return DictS(lambda t: z3.And(o.has(t), o.pos(t) < m), o.val, m, seq_sub(o.keys, 0, m), o.pos)
    return part


@unit(["C15", "C21"], "copy: a dict of the same class, contents and types, with its own contents and events",
      ["TypedMutableMapping.copy", "TypedMutableMapping.__copy__", "TypedMutableMapping.__newlike__"], timeout=240)
def u_copy(U):
    for cls in BOTH:
        for name in ("copy", "__copy__"):
            D, st = evdict(U, cls)
            E = U.E
            # every value in the dict is of an allowed type (class invariant kept by __setitem__)
            k = z3.Const("t_inv", V)
            i = z3.Int("k_ty")
            f = z3.Function("isinstance2", V, V, z3.BoolSort())
            wit = fresh_fun("type_of_val", V, z3.IntSort())
            w = wit(D.d0.val(k).t)
            st = st.assume(z3.ForAll([k], z3.Implies(z3.And(D.d0.has(k), D.types.zn() != 0),
                                                     z3.And(0 <= w, w < D.types.zn(), f(D.d0.val(k).t, D.types.at(w).t))), patterns=[D.d0.val(k).t]))
            E.loop_specs["*"] = lambda _: {"cands": [replay(D, st, D.d0)]}
            for kind, s, r in U.run(st, meth(D, st, name), []):
                U.oblige("a dict can be copied", s, z3.BoolVal(kind == "ret"))
                if kind != "ret":
                    continue
                new_dict(D, st, s, r, "the copy", D.d0, D.types)
                untouched(D, s, "copying")
                D.U.frame("copy", st, s, set())


@unit(["C15", "C21"], "a new dict: the items and types given, its own contents and events", ["EventedDict.__init__", "TypedMutableMapping.__init__"], timeout=240)
def u_init(U):
    for cls in BOTH:
        D, st = evdict(U, cls)
        E = U.E
        st, o = lib.fresh_dict(st, "o", "any")
        st, oref = E.alloc(st, Ext("builtins.dict"), data=o, kind="dict")
        c = E.loader.cls(ED, cls)
        OK, v0, j0 = fresh_fun("ok", V, z3.BoolSort()), z3.Const("v_ok", V), z3.Int("j_ok")
        st = st.assume(z3.ForAll([v0], OK(v0) == allowed(D, SV(v0, "any")), patterns=[OK(v0)]))
        okat = lambda j: OK(o.val(lib.key_term(o.keys.at(j))).t)
        checked = [False]

        def stored_ok(s, m):
            return [("the items stored are of allowed types", z3.ForAll([j0], z3.Implies(z3.And(0 <= j0, j0 < zlen(m)), okat(j0)), patterns=[o.keys.at(j0).t]))] if checked[0] else []
        E.loop_specs["*"] = lambda _: {"cands": [replay(D, st, o)]}
        E.loop_specs["_collections_abc:MutableMapping.update"] = lambda _: {"cands": [replay(D, st, o)], "inv": stored_ok}
        extra = val("extra")
        for args, kw in (([], {}), ([oref], {}), ([oref], {"basetype": D.types}), ([oref], {"k1": extra})):
            ctx = U.ctx(ED)
            checked[0] = "basetype" in kw
            for s, r in E.instantiate(st, c, CallArgs(args, None, kw), ctx):
                U.functions.append(f"{ED}:{cls}.__init__")
                none = DictS(lambda t: z3.BoolVal(False), o.val, z3.IntVal(0), Seq.of([]), o.pos)
                want = lib.dict_set(E, s, o, "k1", extra) if "k1" in kw else o if args else none
                new_dict(D, st, s, r, "the new dict", want, D.types if "basetype" in kw else None)
                j = fresh_int("j")
                if "basetype" in kw:
                    U.oblige("every item of the new dict is of an allowed type", s, z3.Implies(z3.And(0 <= j, j < o.n), okat(j)))
                untouched(D, s, "making another dict")
                U.frame("__init__", st, s, set())
            for s, e in ctx.sink:
                j = z3.Int("j_bad")
                U.oblige("making a dict fails only for a value of a type not allowed", s,
                         z3.And(z3.BoolVal("basetype" in kw), raises(U, s, e, "TypeError"), z3.Exists([j], z3.And(0 <= j, j < o.n, z3.Not(allowed(D, o.val(lib.key_term(o.keys.at(j)))))))))
