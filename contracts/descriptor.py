"""C09: Signal as a descriptor.

`instance` is an arbitrary object: setting an attribute on it works or raises AttributeError
(slots, read-only objects), it may or may not be weakly referenceable.  That an attribute stored in
the instance is found before the (non-data) descriptor is Python's attribute protocol."""
from .common import *
from .sigcheck import param_schema

SI = f"{SIG}:SignalInstance"
S = f"{SIG}:Signal"


def desc_setup(U):
    E = U.E
    param_schema(E)
    E.schema[("Signature", "isinstance")] = lambda E, st, v, c: True if c.endswith("Signature") else False if c.split(".")[-1] in ("str", "list", "tuple") else None
    E.stubs["inspect.Signature"] = lambda E, st, ca, ctx, f: [(st, SV(z3.Const("empty_signature", V), "Signature"))]
    for m in ("__set__", "__delete__"):
        if E.class_lookup(E.loader.cls(SIG, "Signal"), m):
            raise Unsupported("Signal is a data descriptor")
    E.assumptions.add("Python attribute protocol: an attribute stored on the instance is found before the non-data descriptor Signal")
    st = St()
    opts = {
        "description": SV(fresh_v("descr"), "str"), "check_nargs_on_connect": SBool(fresh_bool("cn")),
        "check_types_on_connect": SBool(fresh_bool("ct")),
    }
    return E, st, opts


def set_attr(E, st, o, name, v, ctx):
    """the instance's own __setattr__: stores, or refuses with AttributeError (or anything else)"""
    b = fresh_bool("settable")
    for nm, c in (("AttributeError", z3.Not(b)),):
        s, e = E.new_exc(st.assume(c), exc_cls(E, nm), ())
        ctx.sink.append((s, e))
    s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
    ctx.sink.append((s.g(raised=e), e))
    s = st.assume(b)
    return [(s.g(stores=s.ghost.get("stores", ()) + ((o, name, v),)), None)]


def make_signal(U, E, st, opts, name, mode, sigv, bind=True):
    """Signal(signature, **opts) followed by owner.__set_name__"""
    cls = E.loader.cls(SIG, "Signal")
    c = U.ctx(SIG)
    kw = dict(opts)
    if name is not None:
        kw["name"] = name
    if mode is not None:
        kw["reemission"] = mode
    [(s, sg)] = E.instantiate(st, cls, CallArgs([sigv], None, kw), c)
    assert not c.sink
    attr = SV(fresh_v("attr"), "str")
    s = s.assume(attr.t != V.none)
    if bind:
        for kind, s, v in U.run(s, f"{S}.__set_name__", [sg, SV(fresh_v("owner"), "type"), attr]):
            U.oblige("__set_name__ does not raise", s, kind == "ret")
    return s, sg, attr


def prop(E, U, s, ref, name):
    [(s2, v)] = E.getattr(s, ref, name, U.ctx(SIG))
    return v


def is_new_instance(U, E, pre, s, si, inst, sigv, opts, name, mode, tag):
    o = s.obj(si)
    U.oblige(f"{tag}: a new signal object of its own", s, z3.BoolVal(isinstance(si, Ref) and si.oid not in pre.heap))
    U.oblige(f"{tag}: declared signature, description, options", s,
             z3.And(lib.same(E, s, prop(E, U, s, si, "signature"), sigv), lib.same(E, s, prop(E, U, s, si, "description"), opts["description"]),
                    lib.same(E, s, s.f(si, "_check_nargs_on_connect"), opts["check_nargs_on_connect"]),
                    lib.same(E, s, s.f(si, "_check_types_on_connect"), opts["check_types_on_connect"]),
                    lib.same(E, s, s.f(si, "_reemission"), mode or IMM)))
    want = name.t
    U.oblige(f"{tag}: declared name", s, to_term(prop(E, U, s, si, "name")) == want)
    inner = s.f(si, "_run_emit_loop_inner")
    U.oblige(f"{tag}: emission follows the declared mode", s, z3.BoolVal(
        isinstance(inner, BM) and inner.self_ == si and inner.fn.qual.endswith({IMM: "immediate", QUE: "queued", LAT: "latest_only"}[mode or IMM])))
    U.oblige(f"{tag}: starts without callbacks, unblocked, not paused, nothing held or pending", s,
             z3.And(s.d(s.f(si, "_slots")).zn() == 0, z3.Not(zb(s.f(si, "_is_blocked"))), z3.Not(zb(s.f(si, "_is_paused"))),
                    s.d(s.f(si, "_args_queue")).zn() == 0, s.d(s.f(si, "_emit_queue")).zn() == 0))
    # lists are its own
    own = {s.f(si, f).oid for f in ("_slots", "_args_queue", "_emit_queue", "_lock")}
    U.oblige(f"{tag}: shares no mutable state with another signal", s, z3.BoolVal(not (own & set(pre.heap)) and len(own) == 4))
    # instance: weak, or strong when it cannot be referenced
    r = s.f(si, "_instance")
    for s2, v in E.call(s, r, CallArgs([]), U.ctx(SIG)):
        U.oblige(f"{tag}: bound to the instance", s2, z3.Or(lib.same(E, s2, v, inst), z3.And(lib.same(E, s2, v, None), z3.Not(lib.alive(inst.t)))))


def run_get(U, E, st, sg, attr, opts, name, mode, sigv, tag, cache):
    """one access of an instance that is not (has) in the cache"""
    inst = SV(fresh_v("inst"), "instance")
    st = st.assume(inst.t != V.none)
    owner = SV(fresh_v("owner"), "type")
    pre = st
    cref = next(r for r in [st.f(sg, "_signal_instance_cache")])
    d0 = st.d(cref)
    idt = None
    for kind, s, v in U.run(st, f"{S}.__get__", [sg, inst, owner]):
        stores = s.ghost.get("stores", ())
        [(s, idv)] = lib.FUNCS["builtins.id"](E, s, CallArgs([inst]), None)
        has0 = zb(mkbool_(lib.dict_has(E, s, d0, idv)))
        if kind == "raise":
            U.oblige(f"{tag}: access fails only when the instance refuses with something else than AttributeError", s,
                     z3.BoolVal(s.ghost.get("raised") == v))
            continue
        if not isinstance(v, Ref) or v.oid in pre.heap:
            U.oblige(f"{tag}: an existing signal is handed out only from this instance's own cache entry", s,
                     z3.And(has0, lib.same(E, s, v, lib.dict_val(E, s, lib.dict_to_s(E, d0), idv))))
            U.frame(f"{tag}: cached access", pre, s, ())
            continue
        U.oblige(f"{tag}: a cached signal is not replaced", s, z3.Not(has0))
        is_new_instance(U, E, pre, s, v, inst, sigv, opts, name, mode, tag)
        d1 = s.d(cref)
        t = fresh_v("otherkey")
        D0, D1 = lib.dict_to_s(E, d0), lib.dict_to_s(E, d1)
        kt = to_term(idv)
        if stores:
            U.oblige(f"{tag}: stored on the instance under the attribute name of the declaration", s,
                     z3.And(z3.BoolVal(len(stores) == 1), lib.same(E, s, stores[0][0], inst), lib.same(E, s, stores[0][1], attr), lib.same(E, s, stores[0][2], v)))
            U.oblige(f"{tag}: no cache entry when stored on the instance", s, z3.And(D1.has(t) == D0.has(t)))
        else:
            U.oblige(f"{tag}: an instance that refuses the attribute gets a cache entry", s, z3.And(D1.has(kt), lib.same(E, s, D1.val(kt), v)))
            fin = s.ghost.get("finalizers", ())
            U.oblige(f"{tag}: the entry goes when the instance does (if that can be known)", s, z3.BoolVal(
                not fin or len(fin) == 1 and fin[0][0] == inst))
            if fin:
                E2 = s
                for s2, _ in E.call(s, fin[0][1], CallArgs(list(fin[0][2])), U.ctx(SIG)):
                    Dx = lib.dict_to_s(E, s2.d(cref))
                    U.oblige(f"{tag}: the finalizer removes exactly this instance's entry", s2,
                             z3.And(z3.Not(Dx.has(kt)), z3.Implies(t != kt, z3.And(Dx.has(t) == D0.has(t), z3.Implies(D0.has(t), lib.same(E, s2, Dx.val(t), D0.val(t)))))))
        U.oblige(f"{tag}: entries of other instances stay", s,
                 z3.Implies(t != kt, z3.And(D1.has(t) == D0.has(t), z3.Implies(D0.has(t), lib.same(E, s, D1.val(t), D0.val(t))))))
        U.frame(f"{tag}: the declaration stays as it was", pre, s, {("d", cref.oid), ("g", "stores"), ("g", "finalizers"), ("g", "raised")})


def mkbool_(b):
    return b if isinstance(b, (bool, SBool)) else SBool(b)


@unit(["C09"], "accessing a signal through an instance: its own new signal, stored there or cached for it; declared settings", ["Signal.__get__", "Signal.__set_name__", "Signal.__init__", "Signal._create_signal_instance", "Signal._cache_signal_instance", "SignalInstance.__init__", "SignalInstance._instance_ref", "ReemissionMode.validate"], timeout=90)
def u_get(U):
    for mode in (None, IMM, QUE, LAT):
        for named in (False, True):
            E, st, opts = desc_setup(U)
            E.schema[("setattr", "dynamic")] = set_attr
            sigv = SV(fresh_v("sig"), "Signature")
            name = SV(fresh_v("name"), "str")
            NE = z3.Function("nonempty_str", V, z3.BoolSort())
            st = st.assume(name.t != V.none)
            s, sg, attr = make_signal(U, E, st, opts, name if named else None, mode, sigv)
            s = truthy(E, s, name if named else attr)
            s = truthy(E, s, attr)
            has, val, n = fresh_fun("chas", V, z3.BoolSort()), fresh_fun("cval", V, V), fresh_int("cn")
            cref = s.f(sg, "_signal_instance_cache")
            s = s.setd(cref, DictS(lambda t, has=has: has(t), lambda t, val=val: SV(val(t), "SI"), n)).assume(n >= 0)
            run_get(U, E, s, sg, attr, opts, name if named else attr, mode, sigv, f"[{mode},{'named' if named else 'unnamed'}]", None)
            # class access
            for kind, s2, v in U.run(s, f"{S}.__get__", [sg, None, SV(fresh_v("owner"), "type")]):
                U.oblige("class access gives the declaration itself", s2, z3.BoolVal(kind == "ret" and v == sg))
                U.frame("class access", s, s2, ())
            U.must_fail("satisfiable", s, z3.BoolVal(False))


def truthy(E, s, v):
    [(s2, b)] = E.truth(s, v, None)
    return s2.assume(zb(mkbool_(b)))


@unit(["C09"], "__set_name__ under a second name keeps the first", ["Signal.__set_name__"])
def u_set_name(U):
    E, st, opts = desc_setup(U)
    sigv = SV(fresh_v("sig"), "Signature")
    s, sg, attr = make_signal(U, E, st, opts, None, None, sigv)
    for kind, s2, v in U.run(s, f"{S}.__set_name__", [sg, SV(fresh_v("owner2"), "type"), SV(fresh_v("attr2"), "str")]):
        U.oblige("does not raise", s2, kind == "ret")
        U.frame("a second __set_name__", s, s2, ())


@unit(["C09", "C21"], "SignalInstance(...): validates the mode, starts empty", ["SignalInstance.__init__", "ReemissionMode.validate"])
def u_init(U):
    E, st, opts = desc_setup(U)
    cls = E.loader.cls(SIG, "SignalInstance")
    sigv = SV(fresh_v("sig"), "Signature")
    c = U.ctx(SIG)
    for bad in ("sometimes", ""):
        c = U.ctx(SIG)
        outs = E.instantiate(st, cls, CallArgs([sigv], None, {"reemission": bad, **opts}), c)
        U.oblige("an unknown reemission mode is a ValueError", st, z3.BoolVal(not outs and len(c.sink) > 0 and all(U.exc_is(s, e, "ValueError") for s, e in c.sink)))
    for mode in (IMM, QUE, LAT):
        name = SV(fresh_v("name"), "str")
        st2 = truthy(E, st.assume(name.t != V.none), name)
        c = U.ctx(SIG)
        for s, si in E.instantiate(st2, cls, CallArgs([sigv], None, {"reemission": mode, "name": name, **opts}), c):
            is_new_instance(U, E, st2, s, si, SV(V.none), sigv, opts, name, mode, f"SignalInstance[{mode}]")
        U.oblige("a valid mode is accepted", st2, z3.BoolVal(not c.sink))
