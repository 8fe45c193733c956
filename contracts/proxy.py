"""C22: EventedObjectProxy.

The wrapped object is opaque: its state is a version term; reading an attribute or item is a function of the version, every
other operation succeeds with an arbitrary result and a new version or fails with an arbitrary exception.  wrapt.ObjectProxy
is external: its operations are those of the wrapped object.  Each operation under contract must perform exactly the one
operation on the wrapped object, hand on its result or exception, and emit exactly the matching event."""
from .common import *

EP = "psygnal.containers._evented_proxy"
WO = "wrapt.ObjectProxy"
OPS = ("add", "sub", "mul", "matmul", "truediv", "floordiv", "mod", "pow", "lshift", "rshift", "and", "xor", "or")
ASTOP = dict(zip(("Add", "Sub", "Mult", "MatMult", "Div", "FloorDiv", "Mod", "Pow", "LShift", "RShift", "BitAnd", "BitXor", "BitOr"), OPS))
EVENTS = ("attribute_set", "attribute_deleted", "item_set", "item_deleted", "in_place", "called")
HASA, ATTR = z3.Function("has_attribute", V, V, z3.BoolSort()), z3.Function("attribute_of", V, V, V)
HASI, ITEM = z3.Function("has_item", V, V, z3.BoolSort()), z3.Function("item_of", V, V, V)
UNSETS = z3.Const("never_a_value", V)
GH = {("g", k) for k in ("ver", "ops", "evs", "raised", "made", "fin")}
EVF = {n: z3.Function("event_" + n, V, V) for n in EVENTS}


class PS:
    pass


def proxy(U, cls="EventedObjectProxy", stub_events=True):
    E = U.E
    P = PS()
    P.E, P.U, P.cls = E, U, cls
    P.target, P.ev = SV(fresh_v("target"), "target"), SV(fresh_v("events"), "pevents")
    st = St()
    st, P.obj = E.alloc(st, E.loader.cls(EP, cls), {"__wrapped__": P.target})
    P.ver0 = fresh_v("state")
    st = st.g(ver=P.ver0, ops=(), evs=())
    for m in ["setattr", "delattr", "setitem", "delitem", "getitem", "init", "call"] + ["i" + o for o in OPS]:
        lib.EXT_BASE[(WO, f"__{m}__")] = f"proxy.{m}"
    E.assumptions.add("wrapt.ObjectProxy: each operation is that of the wrapped object; reading an attribute fails only with AttributeError, an item only with LookupError")
    if stub_events:
        E.stubs[f"{EP}:{cls}.events"] = lambda E, st, ca, ctx, fn: [(st, P.ev)]
        E.stubs[f"{EP}:EventedObjectProxy.events"] = E.stubs[f"{EP}:{cls}.events"]
    for n in EVENTS:
        E.schema[("pevents", n)] = (lambda n: lambda E, st, v, ctx: [(st, SV(EVF[n](v.t), "pevt"))])(n)
    E.schema[("pevt", "()")] = lambda E, st, f, ca, ctx: event(P, st, f, ca)
    E.schema[("pevt", "emit")] = lambda E, st, v, ctx: [(st, Partial(Ext("pevt.emit"), [v], {}))]
    E.stubs["pevt.emit"] = lambda E, st, ca, ctx, fn: event(P, st, ca.pos[0], CallArgs(list(ca.pos[1:]), ca.star, ca.kw, ca.kwstar))
    E.assumptions.add("listeners of a proxy's events do not raise")

    def who(ca):
        return list(ca.pos[1:])

    def base(kind):
        return lambda E, st, ca, ctx, fn: op(P, st, kind, who(ca), ctx)
    for m in ("setitem", "delitem", "delattr") + tuple("i" + o for o in OPS):
        E.stubs[f"proxy.{m}"] = base(m)

    def setattr_(E, st, ca, ctx, fn):
        name, v = who(ca)
        if name == "__wrapped__":
            return [(st.setf(P.obj, "__wrapped__", v), None)]
        return op(P, st, "setattr", [name, v], ctx)
    E.stubs["proxy.setattr"] = setattr_
    E.stubs["proxy.getitem"] = lambda E, st, ca, ctx, fn: read(P, st, HASI, ITEM, who(ca)[0], ctx, ("KeyError", "IndexError", "LookupError"))
    E.stubs["proxy.call"] = lambda E, st, ca, ctx, fn: op(P, st, "call", [CallArgs(who(ca), ca.star, ca.kw, ca.kwstar)], ctx)

    # the same operations on the wrapped object itself
    E.schema[("target", "[]")] = lambda E, st, o, k, ctx: read(P, st, HASI, ITEM, k, ctx, ("KeyError", "IndexError", "LookupError"))
    E.schema[("target", "[]=")] = lambda E, st, o, k, v, ctx: [s for s, _ in op(P, st, "setitem", [k, v], ctx)]
    E.schema[("target", "del[]")] = lambda E, st, o, k, ctx: [s for s, _ in op(P, st, "delitem", [k], ctx)]
    E.schema[("target", "inplace")] = lambda E, st, o, a, b, ctx: op(P, st, "i" + ASTOP[o], [b], ctx)
    E.schema[("target", "()")] = lambda E, st, f, ca, ctx: op(P, st, "call", [ca], ctx)

    def ours(v):
        if not (v == P.obj or isinstance(v, SV) and v.cls == "target"):
            raise Unsupported(f"an attribute of {v!r}")

    def dyn_get(E, st, o, name, default, ctx):
        ours(o)
        out = []
        for s, b in E.split(st, HASA(st.ghost["ver"], to_term(name))):
            if b:
                out.append((s, SV(ATTR(s.ghost["ver"], to_term(name)))))
            elif default is UNBOUND:
                E.raise_(s, ctx, "AttributeError", (name,))
            else:
                out.append((s, default))
        return out
    E.schema[("getattr", "dynamic")] = dyn_get

    def dyn_set(E, st, o, name, v, ctx):
        ours(o)
        return op(P, st, "setattr", [name, v], ctx)
    E.schema[("setattr", "dynamic")] = dyn_set
    return P, st


def event(P, st, e, ca):
    name = next((n for n in EVENTS if e.t.eq(EVF[n](P.ev.t))), None)
    if name is None:
        raise Unsupported("an event of something else")
    if ca.star is not None or ca.kw or ca.kwstar is not None:
        raise Unsupported("event emitted with * arguments")
    return [(st.g(evs=st.ghost["evs"] + ((name, tuple(ca.pos), len(st.ghost["ops"])),)), None)]


def read(P, st, has, val, k, ctx, exc):
    out = []
    for s, b in P.E.split(st, has(st.ghost["ver"], to_term(k))):
        if b:
            out.append((s, SV(val(s.ghost["ver"], to_term(k)))))
        else:
            for x in exc:
                P.E.raise_(s, ctx, x, (k,))
    return out


def op(P, st, kind, args, ctx):
    """an operation on the wrapped object: succeeds with a result, or raises; its state is another one afterwards"""
    v = fresh_v("state")
    sent = [to_term(P.E.global_value(st, P.E.loader.module(EP), "_UNSET")[1])] if "_UNSET" in P.E.loader.module(EP).names else []
    a, b = z3.Const("a_un", V), z3.Const("b_un", V)
    for t in sent:
        st = st.assume(z3.ForAll([a, b], ATTR(a, b) != t, patterns=[ATTR(a, b)]), z3.ForAll([a, b], ITEM(a, b) != t, patterns=[ITEM(a, b)]))
    st = st.g(ver=v, ops=st.ghost["ops"] + ((kind, tuple(args), fresh_v("result")),))
    raise_user(P.E, st, ctx, ("user.Exception", "user.BaseException"))
    return [(st, SV(st.ghost["ops"][-1][2]))]


def one_op(P, s, kind, args, what, ret=None, r=None):
    U = P.U
    ops = s.ghost["ops"]
    ok = len(ops) == 1 and ops[0][0] == kind and len(ops[0][1]) == len(args)
    U.oblige(f"{what}: exactly this operation is performed on the wrapped object", s,
             z3.And(z3.BoolVal(ok), *[lib.same(P.E, s, x, y) for x, y in zip(ops[0][1], args)]) if ok else z3.BoolVal(False))
    U.oblige(f"{what}: the proxy keeps its target", s, lib.same(P.E, s, s.f(P.obj, "__wrapped__"), P.target))


def events_are(P, s, what, want):
    """want: [(name, args, guard)] at most one expected event"""
    U, E = P.U, P.E
    evs = s.ghost["evs"]
    if not want:
        U.oblige(f"{what}: no event", s, z3.BoolVal(not evs))
        return
    (name, args, guard), = want
    ok = len(evs) == 1 and evs[0][0] == name and len(evs[0][1]) == len(args)
    if not evs:
        U.oblige(f"{what}: {name} is emitted", s, z3.Not(guard))
        return
    U.oblige(f"{what}: {name} is emitted, exactly once", s, z3.And(guard, z3.BoolVal(ok)))
    if ok:
        U.oblige(f"{what}: {name} has the name or key and the new value", s, z3.And(*[lib.same(E, s, x, y) for x, y in zip(evs[0][1], args)]))


def raised_is_users(P, s, e, what):
    P.U.oblige(f"{what} fails only with the error of the operation", s, z3.BoolVal(len(s.ghost["ops"]) > 0 and e == s.ghost.get("raised")))


BOTH = ("EventedObjectProxy", "EventedCallableObjectProxy")


@unit("C22", "setting an attribute or item does just that, and is reported with the new value exactly when the stored object changed",
      ["EventedObjectProxy.__setattr__", "EventedObjectProxy.__setitem__"])
def u_set(U):
    for cls in BOTH:
        for m, kind, has, val, evt in (("__setattr__", "setattr", HASA, ATTR, "attribute_set"), ("__setitem__", "setitem", HASI, ITEM, "item_set")):
            P, st = proxy(U, cls)
            k, v = SV(fresh_v("name"), "str" if kind == "setattr" else None), SV(fresh_v("value"))
            what = f"{cls}.{m}"
            for t, s, r in U.run(st, BM(U.E.class_attr_fn(st, P.obj, m), P.obj), [k, v]):
                v0, v1 = P.ver0, s.ghost["ver"]
                if t == "raise":
                    if U.exc_is(s, r, "LookupError") is True and s.ghost.get("raised") is None:
                        # the item just set cannot be read again
                        U.oblige(f"{what}: fails otherwise only when the item set cannot be read", s, z3.And(z3.BoolVal(kind == "setitem" and len(s.ghost["ops"]) == 1), z3.Not(has(v1, k.t))))
                        continue
                    raised_is_users(P, s, r, what)
                    events_are(P, s, what + ", failing", [])
                    one_op(P, s, kind, [k, v], what + ", failing")
                    continue
                one_op(P, s, kind, [k, v], what)
                U.oblige(f"{what} returns None", s, z3.BoolVal(r is None))
                changed = z3.Or(has(v0, k.t) != has(v1, k.t), z3.And(has(v0, k.t), has(v1, k.t), val(v0, k.t) != val(v1, k.t)))
                gone = z3.And(has(v0, k.t), z3.Not(has(v1, k.t)))
                if kind == "setattr":       # a setter that removes the attribute: nothing is said about the event
                    s = s.assume(z3.Not(gone))
                events_are(P, s, what, [(evt, (k, SV(val(v1, k.t))), changed)])
            U.must_fail("reachable", st, z3.Not(has(P.ver0, k.t)))


@unit("C22", "deleting an attribute or item does just that, and is reported exactly when it succeeded",
      ["EventedObjectProxy.__delattr__", "EventedObjectProxy.__delitem__"])
def u_del(U):
    for cls in BOTH:
        for m, kind, evt in (("__delattr__", "delattr", "attribute_deleted"), ("__delitem__", "delitem", "item_deleted")):
            P, st = proxy(U, cls)
            k = SV(fresh_v("name"), "str" if kind == "delattr" else None)
            what = f"{cls}.{m}"
            for t, s, r in U.run(st, BM(U.E.class_attr_fn(st, P.obj, m), P.obj), [k]):
                one_op(P, s, kind, [k], what)
                if t == "raise":
                    raised_is_users(P, s, r, what)
                    events_are(P, s, what + ", failing", [])
                else:
                    U.oblige(f"{what} returns None", s, z3.BoolVal(r is None))
                    events_are(P, s, what, [(evt, (k,), z3.BoolVal(True))])


@unit("C22", "each in-place operator is applied to the wrapped object once and reported once with its name and operand",
      [f"EventedObjectProxy.__i{o}__" for o in OPS])
def u_inplace(U):
    for cls in BOTH:
        for o in OPS:
            P, st = proxy(U, cls)
            x = SV(fresh_v("operand"))
            what = f"{cls}.__i{o}__"
            for t, s, r in U.run(st, BM(U.E.class_attr_fn(st, P.obj, f"__i{o}__"), P.obj), [x]):
                ops = s.ghost["ops"]
                ok = len(ops) == 1 and ops[0][0] == "i" + o and len(ops[0][1]) == 1
                U.oblige(f"{what}: exactly this operation is performed on the wrapped object", s, z3.And(z3.BoolVal(ok), lib.same(U.E, s, ops[0][1][0], x) if ok else z3.BoolVal(False)))
                evs = [e for e in s.ghost["evs"] if e[0] == "in_place"]
                ok = len(evs) == 1 and len(evs[0][1]) == 2
                U.oblige(f"{what}: one in_place event with the operator's name and the operand", s,
                         z3.And(z3.BoolVal(ok and evs[0][1][0] == o), lib.same(U.E, s, evs[0][1][1], x)) if ok else z3.BoolVal(False))
                for e in s.ghost["evs"]:
                    if e[0] != "in_place":
                        U.oblige(f"{what}: no other event, unless the wrapped object is replaced", s, z3.BoolVal(e[0] == "attribute_set" and e[1][0] == "__wrapped__"))
                if t == "raise":
                    raised_is_users(P, s, r, what)
                elif s.f(P.obj, "__wrapped__") is not P.target:
                    U.oblige(f"{what}: the proxy goes on with the result", s, z3.And(z3.BoolVal(r == P.obj), lib.same(U.E, s, s.f(P.obj, "__wrapped__"), SV(ops[0][2]))))
                else:
                    U.oblige(f"{what} returns what the operation returns", s, z3.BoolVal(r == P.obj) if isinstance(r, Ref) else lib.same(U.E, s, r, SV(ops[0][2])) if ops else z3.BoolVal(False))


@unit("C22", "calling a proxy calls the wrapped object once with the arguments and reports them once", ["EventedCallableObjectProxy.__call__"])
def u_call(U):
    E = U.E
    P, st = proxy(U, "EventedCallableObjectProxy")
    args = arb_seq(None, "args")
    st, d = lib.fresh_dict(st.assume(args.zn() >= 0), "kwargs", keycls="str")
    st, kw = E.alloc(st, Ext("builtins.dict"), data=d, kind="dict")
    for t, s, r in U.run(st, BM(E.class_attr_fn(st, P.obj, "__call__"), P.obj), [], None, args, kw):
        ops, evs = s.ghost["ops"], s.ghost["evs"]
        ok = len(ops) == 1 and ops[0][0] == "call"
        ca = ops[0][1][0] if ok else None
        U.oblige("the wrapped object is called once, with the arguments", s, z3.And(z3.BoolVal(ok and not ca.pos and not ca.kw and ca.kwstar == kw), lib.same_seq(E, s, ca.star, args)) if ok and ca.star is not None else z3.BoolVal(False))
        ok = len(evs) == 1 and evs[0][0] == "called" and len(evs[0][1]) == 2
        U.oblige("called is emitted once, with the arguments", s, z3.And(z3.BoolVal(ok and evs[0][1][1] == kw), lib.same_seq(E, s, evs[0][1][0], args)) if ok and isinstance(evs[0][1][0], (Seq, tuple)) else z3.BoolVal(False))
        if t == "raise":
            raised_is_users(P, s, r, "a call")
        else:
            U.oblige("the call returns what the wrapped object returns", s, lib.same(E, s, r, SV(ops[0][2])) if ops else z3.BoolVal(False))


@unit("C22", "each proxy has one group of events of its own, for as long as it lives", ["EventedObjectProxy.events", "EventedCallableObjectProxy.events"])
def u_events(U):
    E = U.E
    for cls, grp in (("EventedObjectProxy", "ProxyEvents"), ("EventedCallableObjectProxy", "CallableProxyEvents")):
        P, st = proxy(U, cls, stub_events=False)
        for g in ("ProxyEvents", "CallableProxyEvents"):
            def make(E, st, ca, ctx, fn, g=g):
                x = SV(fresh_v("group"), "group:" + g)
                return [(st.g(made=st.ghost.get("made", ()) + (x,)), x)]
            E.stubs[f"{EP}:{g}"] = make

        def fin(E, st, ca, ctx):
            return [(st.g(fin=st.ghost.get("fin", ()) + (ca,)), None)]
        E.schema[("weakref", "finalize")] = fin
        st, cache = E.alloc(st, Ext("builtins.dict"), data=DictC({}), kind="dict")
        E.schema[("glob", f"{EP}._OBJ_CACHE")] = lambda E, st: (st, cache)
        has, val = fresh_fun("cached", V, z3.BoolSort()), fresh_fun("cache", V, V)
        n = fresh_int("n_cache")
        st = st.assume(n >= 0)
        st = st.setd(cache, DictS(lambda t: has(t), lambda t: SV(val(t), "group:" + grp), n))
        (st, oid), = lib.FUNCS["builtins.id"](E, st, CallArgs([P.obj]), None)
        key = to_term(oid)
        # at(t): what is kept for the id t
        for t, s, r in U.run(st, BM(E.class_attr_fn(st, P.obj, "events"), P.obj), []):
            U.oblige(f"{cls}.events does not fail", s, z3.BoolVal(t == "ret"))
            if t != "ret":
                continue
            made = s.ghost.get("made", ())
            d = s.d(cache)
            d = lib.dict_to_s(E, d)
            U.oblige("a new group is made exactly the first time", s, z3.If(has(key), z3.BoolVal(len(made) == 0), z3.BoolVal(len(made) == 1)))
            U.oblige(f"the events are a {grp}", s, z3.BoolVal(isinstance(r, SV) and r.cls == "group:" + grp))
            U.oblige("the group kept for the proxy is returned", s, z3.And(d.has(key), to_term(d.val(key)) == r.t, z3.Implies(has(key), r.t == val(key))) if isinstance(r, SV) else z3.BoolVal(False))
            o = fresh_v("other")
            U.oblige("other proxies keep their groups", s, z3.Implies(o != key, z3.And(d.has(o) == has(o), z3.Implies(has(o), to_term(d.val(o)) == val(o)))))
            fins = s.ghost.get("fin", ())
            U.oblige("a new group is given up when the proxy is collected", s, z3.If(has(key), z3.BoolVal(len(fins) == 0), z3.BoolVal(len(fins) == 1)))
            if fins:
                ca = fins[0]
                U.oblige("and only then", s, z3.BoolVal(ca.pos[0] == P.obj))
                s2 = s.g(made=())
                ctx = U.ctx(EP)
                outs = E.call(s2, ca.pos[1], CallArgs(list(ca.pos[2:]), ca.star, ca.kw), ctx)
                U.oblige("giving it up does not fail", s2, z3.BoolVal(bool(outs) and not ctx.sink))
                for s3, _ in outs:
                    d3 = lib.dict_to_s(E, s3.d(cache))
                    U.oblige("the collected proxy's group is given up, the others are kept", s3, z3.And(z3.Not(d3.has(key)), z3.Implies(o != key, z3.And(d3.has(o) == has(o), z3.Implies(has(o), to_term(d3.val(o)) == val(o))))))


@unit("C22", "a proxy wraps its target", ["EventedObjectProxy.__init__", "EventedCallableObjectProxy.__init__"])
def u_init(U):
    E = U.E
    for cls in BOTH:
        P, st = proxy(U, cls)

        def init(E, st, ca, ctx, fn):
            return [(st.setf(ca.pos[0], "__wrapped__", ca.pos[1]), None)]
        E.stubs["proxy.init"] = init
        ctx = U.ctx(EP)
        outs = E.instantiate(st, E.loader.cls(EP, cls), CallArgs([P.target]), ctx)
        U.oblige("a proxy can be made", st, z3.BoolVal(bool(outs) and not ctx.sink))
        for s, o in outs:
            U.oblige("the target is wrapped", s, z3.BoolVal(isinstance(o, Ref) and s.f(o, "__wrapped__") == P.target))
