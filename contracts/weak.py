"""C02, C08 (and the contract of weak_callback used in C03): weak callbacks.

The real constructor (through weak_callback or the class) and then the real cb()/dereference()/
__call__ run on symbolic callables of every kind; ghost `calls` records each call of user code as
(callee, positional arguments, keyword mapping).
"""
from pyvc.values import Partial

from .common import *

OKEY = z3.Function("object_key", V, V)
OREPR = z3.Function("object_repr", V, V)
KINDS = {
    "pyfunc": "types.FunctionType",
    "method": "types.MethodType",
    "builtinm": "types.BuiltinMethodType",
    "callobj": None,
    "partial": "functools.partial",
}
OWN = lib.attr_fun("__self__")
FUN = lib.attr_fun("__func__")
NAME = lib.attr_fun("__name__")
MKM = z3.Function("bind_method", V, V, V)          # func.__get__(obj)
BATTR = z3.Function("builtin_of", V, V, V)         # getattr(obj, name) of a builtin's owner


def isinst(tag):
    def h(E, st, v, cname):
        want = KINDS[tag]
        if cname == f"{WCB}:WeakCallback" or cname.endswith("WeakCallback"):
            return False
        if cname == "types.MethodWrapperType":
            return False
        if cname == "typing.Callable" or cname.endswith("abc.Callable"):
            return True
        if cname in KINDS.values():
            return cname == want
        return None
    return h


def unit_setup(U):
    E = U.E
    base_schema(E)
    E.assumptions.add("weakref.ref: dereferences to the object while it is alive, to None afterwards, and calls its callback once at death")
    E.assumptions.add("a bound method called is its __func__ called with __self__ first; getattr(owner, name) of a builtin method is that method")

    def opt(attr):
        f = lib.attr_fun(attr)
        return lambda E, st, v, ctx: [(st, SV(f(v.t), "str"))]
    sch = {}
    for tag in KINDS:
        sch[(tag, "isinstance")] = isinst(tag)
        for a in ("__module__", "__name__", "__qualname__"):
            sch[(tag, a)] = opt(a)
        sch[(tag, "()")] = user_call
    for tag in ("method", "builtinm"):
        sch[(tag, "__self__")] = lambda E, st, v, ctx: [(st, SV(OWN(v.t), "owner"))]
    sch[("method", "__func__")] = lambda E, st, v, ctx: [(st, SV(FUN(v.t), "rawfunc"))]
    sch[("rawfunc", "()")] = user_call
    sch[("rawfunc", "__get__")] = lambda E, st, v, ctx: [(st, BM(Ext("rawfunc.__get__"), v))]
    sch[("rawfunc", "__name__")] = opt("__name__")
    for a in ("__module__", "__name__", "__qualname__"):
        sch[("owner", a)] = opt(a)
        sch[("type", a)] = opt(a)
        sch[("target", a)] = opt(a)
    sch[("builtinattr", "()")] = user_call
    sch[("boundm", "()")] = user_call
    sch[("owner", "__setitem__")] = lambda E, st, v, ctx: [(st, SV(lib.attr_fun("__setitem__")(v.t), "boundm"))]
    sch[("target", "__setitem__")] = sch[("owner", "__setitem__")]

    def has_self(E, st, o, ctx):
        return [(st, o.cls in ("method", "builtinm"))]
    sch[("hasattr", "__self__")] = has_self

    def dyn_getattr(E, st, o, name, default, ctx):
        """getattr(owner, name): the builtin method of that name (None has no such attribute)"""
        if o is None:
            return [(st, default)] if not (default is UNBOUND) else E.raise_(st, ctx, "AttributeError", ())
        return [(st, SV(BATTR(to_term(o), to_term(name)), "builtinattr"))]
    sch[("getattr", "dynamic")] = dyn_getattr

    def dyn_setattr(E, st, o, name, v, ctx):
        st = st.g(calls=st.ghost.get("calls", ()) + (("setattr", o, name, v),))
        raise_user(E, st, ctx)
        return [(st, None)]
    sch[("setattr", "dynamic")] = dyn_setattr
    E.schema.update(sch)
    lib.PRIMS["rawfunc.__get__"] = lambda E, st, o, ca, ctx: [(st, SV(MKM(to_term(o), to_term(ca.pos[0])), "boundm"))]
    E.stubs[f"{WCB}:WeakCallback.object_key"] = lambda E, st, ca, ctx, fn: [(st, SV(OKEY(to_term(ca.pos[-1])), "str"))]
    E.stubs[f"{WCB}:WeakCallback.object_repr"] = lambda E, st, ca, ctx, fn: [(st, SV(OREPR(to_term(ca.pos[-1])), "str"))]
    E.stubs[f"{WCB}:_is_toolz_curry"] = lambda E, st, ca, ctx, fn: [(st, ca.pos[0].cls == "curry" if isinstance(ca.pos[0], SV) else False)]
    E.assumptions.add("_is_toolz_curry recognises toolz.curry objects (toolz itself is outside the code base)")
    E.setitem_hook = lambda E, st, o, k, v, ctx: setitem(E, st, o, k, v, ctx)
    return E


def setitem(E, st, o, k, v, ctx):
    st = st.g(calls=st.ghost.get("calls", ()) + (("setitem", o, k, v),))
    raise_user(E, st, ctx)
    return [st]


def user_call(E, st, f, ca, ctx):
    pos = ca.seq()
    kw = ca.kwstar if ca.kwstar is not None else dict(ca.kw)
    ret = SV(fresh_v("result"))
    st = st.g(calls=st.ghost.get("calls", ()) + (("call", f, pos, kw, ret),))
    raise_user(E, st, ctx)
    return [(st, ret)]


def arb_tuple(st, prefix):
    s = fresh_seq(prefix)
    return st.assume(s.zn() >= 0), s


def arb_kw(E, st):
    """an arbitrary (or absent) keyword mapping"""
    has, val = fresh_fun("kwhas", V, z3.BoolSort()), fresh_fun("kwval", V, V)
    n = fresh_int("nkw")
    st = st.assume(n >= 0)
    return E.alloc(st, Ext("builtins.dict"), data=DictS(lambda t: has(t), lambda t: SV(val(t)), n), kind="dict")


def kw_same(E, st, got, want):
    """the same mapping passed on (identity, or both empty)"""
    if want is None:
        if isinstance(got, dict):
            return z3.BoolVal(not got)
        d = lib.dict_payload(E, st, got)
        return z3.BoolVal(isinstance(d, DictC) and not d.d)
    empty = z3.BoolVal(isinstance(got, dict) and not got) if not isinstance(got, Ref) else z3.BoolVal(
        isinstance(lib.dict_payload(E, st, got), DictC) and not lib.dict_payload(E, st, got).d)
    wd = st.d(want)
    return z3.Or(z3.BoolVal(got == want), z3.And(empty, wd.n == 0))


def cut(E, emitted, maxa):
    """emitted arguments, cut to max_args when there is one"""
    if maxa is None:
        return emitted
    m = zi(maxa)
    n = z3.If(m >= 0, z3.If(emitted.zn() < m, emitted.zn(), m), z3.If(emitted.zn() + m < 0, 0, emitted.zn() + m))
    return seq_sub(emitted, 0, n)


def reach(st, v, seen=None, weak=False):
    """values strongly reachable from v (not through weak references)"""
    seen = {} if seen is None else seen
    out = []
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Ref):
            if x.oid in seen:
                continue
            seen[x.oid] = True
            o = st.obj(x)
            if o.kind == "weakref":
                continue
            stack += list(o.fields.values())
            d = o.data
            if isinstance(d, Seq) and d.items is not None:
                stack += d.items
            elif isinstance(d, DictC):
                stack += list(d.d.values())
            out.append(x)
        elif isinstance(x, BM):
            stack += [x.self_]
        elif isinstance(x, Partial):
            stack += [x.fn, *x.args, *x.kw.values()]
        elif isinstance(x, tuple):
            stack += list(x)
        elif isinstance(x, Fn):
            for oid, _names in x.frames:
                stack.append(Ref(oid))
            stack += list(x.defaults or ()) + list((x.kwdefaults or {}).values())
        elif isinstance(x, SV):
            out.append(x)
    return out


def holds(E, st, v, owner):
    """is `owner` strongly held by v? (SV identity on terms reachable)"""
    fs = [x.t == owner.t for x in reach(st, v) if isinstance(x, SV)]
    return z3.Or(*fs) if fs else z3.BoolVal(False)


def fin_fn(E):
    return SV(fresh_v("finalize"), "finalizer")


def build(U, st, E, kind, via, maxa, extra_kw):
    """[(outcome kind, st, callback)], description of what calling it must do"""
    f = SV(fresh_v("f_" + kind), kind)
    if via == "partial":
        st, bound = arb_tuple(st, "bound")
        st, kwref = arb_kw(E, st)
        p = SV(fresh_v("partial"), "partial")
        E.schema[("partial", "func")] = lambda E, st, v, ctx: [(st, f)]
        E.schema[("partial", "args")] = lambda E, st, v, ctx: [(st, bound)]
        E.schema[("partial", "keywords")] = lambda E, st, v, ctx: [(st, kwref)]
        arg = p
    else:
        bound, kwref, arg = Seq.of([]), None, f
    outs = U.run(st, f"{WCB}:weak_callback", [arg], {"max_args": maxa, **extra_kw})
    return outs, f, bound, kwref


def base_state(E, fields=()):
    return St().g(calls=())


def is_call_of(E, s, c, kind, f, args, kw):
    """formula: the recorded call c runs callable f (of `kind`) with exactly `args` and `kw`"""
    if c[0] != "call":
        return z3.BoolVal(False)
    _, callee, pos, ckw, _ret = c
    want = args
    alts = []
    kws = kw_same(E, s, ckw, kw)
    ct = to_term(callee)
    if kind == "method":
        withself = seq_concat(Seq.of([SV(OWN(f.t), "owner")]), want)
        alts.append(z3.And(ct == FUN(f.t), lib.same_seq(E, s, pos, withself)))
        alts.append(z3.And(ct == MKM(FUN(f.t), OWN(f.t)), lib.same_seq(E, s, pos, want)))
    if kind == "builtinm":
        alts.append(z3.And(ct == BATTR(OWN(f.t), NAME(f.t)), lib.same_seq(E, s, pos, want)))
    alts.append(z3.And(ct == f.t, lib.same_seq(E, s, pos, want)))
    return z3.And(kws, z3.Or(*alts))


def owner_alive(kind, f):
    if kind == "method":
        return z3.And(lib.alive(OWN(f.t)), lib.alive(FUN(f.t)))
    if kind == "builtinm":
        return lib.alive(OWN(f.t))
    return lib.alive(f.t)


def pre_callable(st, kind, f):
    st = st.assume(f.t != V.none)
    if kind in ("method", "builtinm"):
        st = st.assume(OWN(f.t) != V.none)
    if kind == "method":
        st = st.assume(FUN(f.t) != V.none, MKM(FUN(f.t), OWN(f.t)) != V.none)
    if kind == "builtinm":
        st = st.assume(BATTR(OWN(f.t), NAME(f.t)) != V.none)
    return st


def weakable(kind, f):
    if kind == "method":
        return z3.And(lib.weakrefable(OWN(f.t)), lib.weakrefable(FUN(f.t)))
    if kind == "builtinm":
        return lib.weakrefable(OWN(f.t))
    return lib.weakrefable(f.t)


CONFIGS = [(k, v, m) for k in ("pyfunc", "method", "builtinm", "callobj") for v in ("plain", "partial") for m in (None, "max")]
CONFIGS += [(k, "partial+", None) for k in ("pyfunc", "method")]


def kinds_unit(prop, title, targets, body):
    @unit(prop, title, targets, timeout=120)
    def u(U):
        for kind, via, m in CONFIGS:
            E = unit_setup(U)
            maxa = SInt(fresh_int("max_args")) if m else None
            st = base_state(E)
            if m:
                st = st.assume(zi(maxa) >= 0)
            prio = SInt(fresh_int("prio"))
            ore = SV(fresh_v("on_ref_error"), "str")
            fin = fin_fn(E)
            E.schema[("finalizer", "()")] = lambda E, st, f, ca, ctx: [(st.g(finalized=st.ghost.get("finalized", ()) + (tuple(ca.pos),)), None)]
            f = SV(fresh_v("f_" + kind), kind)
            st = pre_callable(st, kind, f).assume(lib.callable_p(f.t), fin.t != V.none)
            if kind in ("method", "builtinm"):
                # `setattr` and __setitem__ have their own contracts below
                st = st.assume(f.t != to_term(Ext("builtins.setattr")))
                if via == "plain" or kind == "builtinm":
                    st = st.assume(NAME(f.t) != to_term("__setitem__"))
            extra = [SV(fresh_v("extra"))] if via == "partial+" else []
            if via != "plain":
                st, bound = arb_tuple(st, "bound")
                st, kwref = arb_kw(E, st)
                if kind == "builtinm":
                    st = st.assume(st.d(kwref).n == 0)
                if kind == "method":
                    st = st.assume(z3.Or(NAME(f.t) != to_term("__setitem__"), st.d(kwref).n > 0))
                arg = SV(fresh_v("partial"), "partial")
                for a, val in (("func", f), ("args", bound), ("keywords", kwref)):
                    E.schema[("partial", a)] = lambda E, st, v, ctx, val=val: [(st, val)]
            else:
                bound, kwref, arg = Seq.of([]), None, f
            kw = {"max_args": maxa, "finalize": fin, "on_ref_error": ore, "priority": prio}
            outs = U.run(st, f"{WCB}:weak_callback", [arg, *extra], kw)
            bound = seq_concat(bound, Seq.of(extra))
            tag = f"{kind}{'/' + via if via != 'plain' else ''}"
            U.must_fail("reachable " + tag, outs[0][1], z3.BoolVal(False))
            for k, s, w in outs:
                if k == "raise":
                    U.oblige(f"making a callback fails only when the owner cannot be referenced weakly and on_ref_error='raise' ({tag})", s,
                             z3.And(U.exc_is(s, w, "TypeError"), ore.t == to_term("raise"), z3.Not(weakable(kind, f)), z3.BoolVal(kind != "pyfunc")))
                    continue
                body(U, E, s, w, kind, f, bound, kwref, maxa, tag, prio, ore, arg)
    return u


def b_cb(U, E, s, w, kind, f, bound, kwref, maxa, tag, prio, ore, arg=None):
    s, emitted = arb_tuple(s, "emitted")
    want = seq_concat(bound, cut(E, emitted, maxa))
    fn = E.class_attr_fn(s, w, "cb")
    for k, s2, v in U.run(s, BM(fn, w), [emitted]):
        calls = s2.ghost["calls"]
        if not calls:
            U.oblige(f"the callable is not called only when it (or its owner) is gone, with ReferenceError ({tag})", s2,
                     z3.And(z3.BoolVal(k == "raise"), U.exc_is(s2, v, "ReferenceError"), z3.Not(owner_alive(kind, f)),
                            z3.BoolVal(kind != "pyfunc")))
            continue
        U.oblige(f"called once ({tag})", s2, len(calls) == 1)
        U.oblige(f"called with its bound arguments then the emitted ones, cut to max_args, unmodified ({tag})", s2,
                 is_call_of(E, s2, calls[0], kind, f, want, kwref))
        U.oblige(f"an exception of the callable is passed on unchanged ({tag})", s2,
                 z3.BoolVal((k == "raise") == ("raised" in s2.ghost) and (k != "raise" or v == s2.ghost["raised"])))
        U.frame(f"cb ({tag})", s, s2, {("g", "calls"), ("g", "raised")})


kinds_unit(["C02"], "callbacks of every kind get their bound and the emitted arguments, cut to max_args",
           ["weak_callback", "StrongFunction.cb", "WeakFunction.cb", "WeakMethod.cb", "WeakBuiltin.cb"], b_cb)


def b_call(U, E, s, w, kind, f, bound, kwref, maxa, tag, prio, ore, arg=None):
    """w(*args) and w.dereference()(*args)"""
    s, emitted = arb_tuple(s, "emitted")
    fn = E.class_attr_fn(s, w, "__call__")
    want = seq_concat(bound, cut(E, emitted, maxa))
    for k, s2, v in U.run(s, BM(fn, w), [], star=emitted):
        calls = s2.ghost["calls"]
        if not calls:
            U.oblige(f"calling a callback fails without a call only when dead ({tag})", s2,
                     z3.And(z3.BoolVal(k == "raise"), U.exc_is(s2, v, "ReferenceError"), z3.Not(owner_alive(kind, f)),
                            z3.BoolVal(kind != "pyfunc")))
            continue
        bound_ok = want if kind != "builtinm" else cut(E, emitted, maxa)
        if kind == "builtinm":
            continue        # dereference of a builtin with bound arguments: see DESIGN (not used by emission)
        U.oblige(f"calling the callback object passes bound arguments then those given, cut ({tag})", s2,
                 z3.And(len(calls) == 1, is_call_of(E, s2, calls[0], kind, f, bound_ok, kwref)))
        U.oblige(f"and returns what the callable returns ({tag})", s2,
                 z3.BoolVal(k == "raise") if k == "raise" else lib.same(E, s2, v, calls[0][4]))


kinds_unit(["C02"], "calling a callback object is calling the callable",
           ["WeakCallback.__call__", "StrongFunction.dereference", "WeakFunction.dereference", "WeakMethod.dereference"], b_call)


def b_own(U, E, s, w, kind, f, bound, kwref, maxa, tag, prio, ore, arg=None):
    owner = SV(OWN(f.t), "owner") if kind in ("method", "builtinm") else f
    if kind == "pyfunc":
        U.oblige(f"a plain function is held strongly ({tag})", s, holds(E, s, w, f))
        return
    # holding the method/builtin object or the partial itself would hold the owner too
    bad = {z3.simplify(x.t).get_id(): x for x in (owner, f, arg)}
    held = [x for x in reach(s, w) if isinstance(x, SV)]
    hit = [x for x in held if z3.simplify(x.t).get_id() in bad]
    U.oblige(f"no strong reference to the owner is kept unless it cannot be referenced weakly ({tag})", s,
             z3.Implies(weakable(kind, f), z3.BoolVal(not hit)))
    # priority and settings
    U.oblige(f"the callback carries its priority ({tag})", s, zi(s.f(w, "priority")) == zi(prio))
    # death: every weak reference's callback finalizes this callback once
    refs = [Ref(oid) for oid, o in s.heap.items() if o.kind == "weakref"]
    if not refs:
        U.oblige(f"without weak reference the owner is not weakly referenceable ({tag})", s, z3.Not(weakable(kind, f)))
        return
    own_refs = [r for r in refs if is_lit(z3.simplify(to_term(s.f(r, "target")) == owner.t)) is True]
    U.oblige(f"the owner's death is observed, when it can be ({tag})", s,
             z3.Or(z3.BoolVal(bool(own_refs)), z3.Not(lib.weakrefable(owner.t))))
    st = s
    states = [s.g(finalized=())]
    for r in refs:
        cb = s.f(r, "callback")
        U.oblige(f"every weak reference reports the death ({tag})", s, z3.BoolVal(cb is not None))
        if cb is None:
            continue
        nxt = []
        for x in states:
            c = U.ctx(WCB)
            for x2, _ in E.call(x, cb, CallArgs([r]), c):
                nxt.append(x2)
            U.oblige(f"finalizing does not raise ({tag})", x, z3.BoolVal(not c.sink))
        states = nxt
    for x in states:
        fin = x.ghost["finalized"]
        U.oblige(f"at the owner's death the callback is discarded exactly once, and it is this callback ({tag})", x,
                 z3.BoolVal(len(fin) == 1 and fin[0] == (w,)))


kinds_unit(["C08"], "owners of methods, callable objects and builtins are not kept alive; their death discards the callback once",
           ["weak_callback", "WeakCallback._try_ref", "_kill_and_finalize", "WeakMethod.__init__", "WeakFunction.__init__", "WeakBuiltin.__init__"], b_own)


# ---------------------------------------------------------------- attribute and item bindings

def single(emitted):
    """the value stored: the argument when there is exactly one, else the tuple"""
    def ok(E, s, v):
        one = emitted.zn() == 1
        istuple = isinstance(v, (Seq, tuple))
        sq = (Seq.of(v) if isinstance(v, tuple) else v) if istuple else None
        return z3.If(one, z3.BoolVal(False) if istuple else to_term(v) == to_term(emitted.at(0)),
                     lib.same_seq(E, s, sq, emitted) if istuple else z3.BoolVal(False))
    return ok


def binding_unit(tag, cls, what):
    @unit(["C02", "C08"], f"{what}: the emitted value, and nothing else, is stored on the bound object under the bound name",
          [f"{cls}.__init__", f"{cls}.cb", f"{cls}.dereference", "weak_callback"], timeout=120)
    def u(U):
        for via in ("class", "partial", "partial with a value"):
            for m in (None, "max"):
                E = unit_setup(U)
                value = SV(fresh_v("value"), "object") if via == "partial with a value" else None
                maxa = SInt(fresh_int("max_args")) if m else None
                st = base_state(E)
                if m:
                    st = st.assume(zi(maxa) >= 0)
                prio, ore, fin = SInt(fresh_int("prio")), SV(fresh_v("on_ref_error"), "str"), fin_fn(E)
                E.schema[("finalizer", "()")] = lambda E, st, f, ca, ctx: [(st.g(finalized=st.ghost.get("finalized", ()) + (tuple(ca.pos),)), None)]
                obj, key = SV(fresh_v("obj"), "target"), SV(fresh_v("key"), "str" if tag == "setattr" else "object")
                st = st.assume(obj.t != V.none, fin.t != V.none, to_term(obj) != to_term(key), *([to_term(value) != to_term(obj)] if value is not None else []))
                E.schema[("target", "[]=")] = setitem
                kw = {"max_args": maxa, "finalize": fin, "on_ref_error": ore, "priority": prio}
                name = f"{tag}/{via}"
                if via == "class":
                    outs = []
                    c = U.ctx(WCB)
                    r = E.instantiate(st, E.loader.cls(WCB, cls), CallArgs([obj, key], None, dict(kw)), c)
                    outs = [("ret", s, v) for s, v in r] + [("raise", s, e) for s, e in c.sink]
                else:
                    if tag == "setattr":
                        f = Ext("builtins.setattr")
                        args = Seq.of([obj, key] + ([value] if value is not None else []))
                        E.schema[("isinstance", "types.BuiltinMethodType")] = lambda E, st, v: True if v == Ext("builtins.setattr") else None
                        E.schema[("isinstance", "types.FunctionType")] = lambda E, st, v: False if v == Ext("builtins.setattr") else None
                        E.schema[("isinstance", "types.MethodType")] = lambda E, st, v: False if v == Ext("builtins.setattr") else None
                        E.schema[("isinstance", "types.MethodWrapperType")] = lambda E, st, v: False if v == Ext("builtins.setattr") else None
                        E.schema[("isinstance", f"{WCB}:WeakCallback")] = lambda E, st, v: False if v == Ext("builtins.setattr") else None
                    else:
                        f = SV(fresh_v("meth"), "method")
                        st = st.assume(NAME(f.t) == to_term("__setitem__"), OWN(f.t) == obj.t, f.t != V.none, FUN(f.t) != V.none)
                        E.schema[("method", "__self__")] = lambda E, st, v, ctx: [(st, obj)]
                        args = Seq.of([key] + ([value] if value is not None else []))
                    arg = SV(fresh_v("partial"), "partial")
                    st, kwref = E.alloc(st, Ext("builtins.dict"), data=DictC({}), kind="dict")
                    for a, val in (("func", f), ("args", tuple(args.items)), ("keywords", kwref)):
                        E.schema[("partial", a)] = lambda E, st, v, ctx, val=val: [(st, val)]
                    outs = U.run(st, f"{WCB}:weak_callback", [arg], kw)
                U.must_fail("reachable " + name, outs[0][1], z3.BoolVal(False))
                for k, s, w in outs:
                    if k == "raise":
                        U.oblige(f"a binding is refused only when the object cannot be referenced weakly and on_ref_error='raise' ({name})", s,
                                 z3.And(U.exc_is(s, w, "TypeError"), ore.t == to_term("raise"), z3.Not(lib.weakrefable(obj.t))))
                        continue
                    check_binding(U, E, s, w, tag, cls, obj, key, maxa, name, prio, value)
                    check_dereference(U, E, s, w, tag, cls, obj, key, name, value)
    return u


def check_binding(U, E, s, w, tag, cls, obj, key, maxa, name, prio, value=None):
    if value is None:
        U.oblige(f"a {what_of(tag)} binding is made ({name})", s, z3.BoolVal(isinstance(w, Ref) and getattr(s.obj(w).cls, "name", "") == cls))
    held = [x for x in reach(s, w) if isinstance(x, SV) and z3.eq(z3.simplify(x.t), z3.simplify(obj.t))]
    U.oblige(f"the bound object is not kept alive when it can be referenced weakly ({name})", s,
             z3.Implies(lib.weakrefable(obj.t), z3.BoolVal(not held)))
    U.oblige(f"priority kept ({name})", s, zi(s.f(w, "priority")) == zi(prio))
    refs = [Ref(oid) for oid, o in s.heap.items() if o.kind == "weakref"]
    U.oblige(f"the object's death is observed, when it can be ({name})", s, z3.Or(z3.BoolVal(bool(refs)), z3.Not(lib.weakrefable(obj.t))))
    states = [s.g(finalized=())]
    for r in refs:
        nxt = []
        for x in states:
            c = U.ctx(WCB)
            cb = s.f(r, "callback")
            if cb is not None:
                for x2, _ in E.call(x, cb, CallArgs([r]), c):
                    nxt.append(x2)
            else:
                nxt.append(x)
        states = nxt
    if refs:
        for x in states:
            U.oblige(f"at the object's death the binding is discarded exactly once ({name})", x,
                     z3.BoolVal(len(x.ghost["finalized"]) == 1 and x.ghost["finalized"][0] == (w,)))
    s, emitted = arb_tuple(s, "emitted")
    want = cut(E, emitted, maxa)
    fn = E.class_attr_fn(s, w, "cb")
    for k, s2, v in U.run(s, BM(fn, w), [emitted]):
        calls = s2.ghost["calls"]
        if not calls:
            U.oblige(f"nothing is stored only when the object is gone, with ReferenceError ({name})", s2,
                     z3.And(z3.BoolVal(k == "raise"), U.exc_is(s2, v, "ReferenceError"), z3.Not(lib.alive(obj.t))))
            continue
        c = calls[0]
        if value is not None:
            # the callable accepts no emitted argument: what it is called with when there are some is not specified
            none = want.zn() == 0
            ok = c[0] == tag or tag == "setitem" and c[0] == "call" and is_lit(c[2].zn()) == 2
            U.oblige(f"exactly one value is stored ({name})", s2, z3.Implies(none, z3.BoolVal(len(calls) == 1 and bool(ok))))
            if ok:
                o, k2, val = (c[1], c[2], c[3]) if c[0] == tag else (None, c[2].at(0), c[2].at(1))
                U.oblige(f"the value given is stored under the bound name ({name})", s2, z3.Implies(none, z3.And(lib.same(E, s2, k2, key), z3.BoolVal(False) if isinstance(val, (Seq, tuple)) else lib.same(E, s2, val, value), *([lib.same(E, s2, o, obj)] if o is not None else []))))
            U.frame(f"cb ({name})", s, s2, {("g", "calls"), ("g", "raised")})
            continue
        U.oblige(f"exactly one value is stored, on the bound object, under the bound name ({name})", s2,
                 z3.And(len(calls) == 1, z3.BoolVal(c[0] == tag), lib.same(E, s2, c[1], obj), lib.same(E, s2, c[2], key)))
        U.oblige(f"the value stored is the emitted one (or the tuple, when not exactly one) ({name})", s2,
                 single(want)(E, s2, c[3]))
        U.frame(f"cb ({name})", s, s2, {("g", "calls"), ("g", "raised")})


def check_dereference(U, E, s, w, tag, cls, obj, key, name, value):
    if getattr(s.obj(w).cls, "name", "") != cls:
        return
    fn = E.class_attr_fn(s, w, "dereference")
    for k, s2, v in U.run(s, BM(fn, w), []):
        U.oblige(f"asking for the callable does not fail ({name})", s2, z3.BoolVal(k == "ret"))
        if k != "ret":
            continue
        if v is None:
            U.oblige(f"the callable is gone only with the object ({name})", s2, z3.Not(lib.alive(obj.t)))
            continue
        U.oblige(f"the callable is the partial that was connected ({name})", s2, z3.BoolVal(isinstance(v, Partial) and not v.kw))
        if isinstance(v, Partial):
            got = CallArgs(list(v.args), v.star).seq()
            want = ([obj] if tag == "setattr" else []) + [key] + ([value] if value is not None else [])
            f = v.fn == Ext("builtins.setattr") if tag == "setattr" else isinstance(v.fn, SV) and lib.same(E, s2, v.fn, SV(lib.attr_fun("__setitem__")(obj.t), "boundm"))
            U.oblige(f"the callable is the one that was connected, with its arguments ({name})", s2, z3.And(f if z3.is_expr(f) else z3.BoolVal(bool(f)), got.zn() == len(want), *[lib.same(E, s2, got.at(i), x) for i, x in enumerate(want)]))


def what_of(tag):
    return {"setattr": "attribute", "setitem": "item"}[tag]


binding_unit("setattr", "WeakSetattr", "attribute bindings")
binding_unit("setitem", "WeakSetitem", "item bindings")


# ---------------------------------------------------------------- identity of callbacks

@unit(["C03"], "a callback is known by its owner and name: equal callables get equal keys, different ones different keys",
      ["WeakCallback.object_key", "WeakCallback.__init__"])
def u_key(U):
    E = unit_setup(U)
    for q in ("object_key", "object_repr"):
        E.stubs.pop(f"{WCB}:WeakCallback.{q}")
    E.assumptions.add("the key format `{module}:{name}@{hex(id)}` is unambiguous (string formatting is injective); ids of live objects differ")
    for kind in ("pyfunc", "callobj", "method", "builtinm"):
        a, b = SV(fresh_v("f"), kind), SV(fresh_v("g"), kind)
        st = pre_callable(pre_callable(St(), kind, a), kind, b)
        if kind in ("method", "builtinm"):
            same = z3.And(OWN(a.t) == OWN(b.t), NAME(a.t) == NAME(b.t))
        else:
            same = a.t == b.t
        for k1, s1, v1 in U.run(st, f"{WCB}:WeakCallback.object_key", [a]):
            for k2, s2, v2 in U.run(s1, f"{WCB}:WeakCallback.object_key", [b]):
                U.oblige("computing a key does not raise", s2, z3.BoolVal(k1 == k2 == "ret"))
                U.oblige(f"the same callable gets the same key ({kind})", s2, z3.Implies(same, to_term(v1) == to_term(v2)))
                s3 = s2.assume(*lib.fmt_injective(), *id_axioms())
                if kind in ("method", "builtinm"):
                    # names are strings: `x or ''` keeps them
                    s3 = s3.assume(is_name(NAME(a.t)), is_name(NAME(b.t)))
                U.oblige(f"different callables get different keys ({kind})", s3, z3.Implies(to_term(v1) == to_term(v2), same))


def is_name(t):
    return z3.And(t != V.none, lib.truthy(t), z3.Not(V.is_vint(t)), z3.Not(V.is_vbool(t)))


def id_axioms():
    x = z3.Const("x_id", V)
    iid = z3.Function("inv_id_of", z3.IntSort(), V)
    ire = z3.Function("inv_repr_of", V, V)
    return [z3.ForAll([x], iid(lib._idf(x)) == x, patterns=[lib._idf(x)]),
            z3.ForAll([x], ire(lib._reprf(x)) == x, patterns=[lib._reprf(x)])]


@unit(["C02"], "curried functions are called like the partial they hold; an existing weak callback is used as it is",
      ["weak_callback"])
def u_curry(U):
    E = unit_setup(U)
    f = SV(fresh_v("f"), "pyfunc")
    st, bound = arb_tuple(base_state(E).assume(f.t != V.none), "bound")
    st, kwref = arb_kw(E, st)
    p, c = SV(fresh_v("partial"), "partial"), SV(fresh_v("curry"), "curry")
    E.schema[("curry", "isinstance")] = lambda E, st, v, cname: cname.endswith("Callable")
    E.schema[("curry", "_partial")] = lambda E, st, v, ctx: [(st, p)]
    for a, val in (("func", f), ("args", bound), ("keywords", kwref)):
        E.schema[("partial", a)] = lambda E, st, v, ctx, val=val: [(st, val)]
    E.schema[("curry", "()")] = user_call
    st = st.assume(p.t != V.none, c.t != V.none, lib.callable_p(c.t))
    for maxa in (None, SInt(fresh_int("max_args"))):
        if maxa is not None:
            st = st.assume(zi(maxa) >= 0)
        prio = SInt(fresh_int("prio"))
        for k, s, w in U.run(st, f"{WCB}:weak_callback", [c], {"max_args": maxa, "priority": prio}):
            U.oblige("a curried function is accepted", s, k == "ret")
            if k == "ret":
                U.oblige("priority kept (curry)", s, zi(s.f(w, "priority")) == zi(prio))
                b_cb(U, E, s, w, "pyfunc", f, bound, kwref, maxa, "curry", prio, None)
    # an existing callback
    st2, w0 = E.alloc(St(), weak_callback_cls(E), {"_key": SV(fresh_v("k"), "str"), "priority": 0})
    for k, s, w in U.run(st2, f"{WCB}:weak_callback", [w0]):
        U.oblige("an existing weak callback is used as it is", s, z3.BoolVal(k == "ret" and w == w0))
        U.frame("weak_callback(WeakCallback)", st2, s, ())
