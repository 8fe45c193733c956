"""C21: __getstate__/__setstate__ round trip (what pickle stores and restores in between is the
standard library's: it reproduces the state dictionary)."""
from .common import *
from .descriptor import desc_setup

STRONG = z3.Function("is_strong_function", V, z3.BoolSort())


@unit(["C21"], "pickle round trip of a SignalInstance: settings, flags, held arguments and strong callbacks survive, weak ones are dropped with a warning",
      ["SignalInstance.__getstate__", "SignalInstance.__setstate__", "SignalInstance._instance_ref"], timeout=90)
def u_pickle(U):
    for mode in (IMM, QUE, LAT):
        E, st, _ = desc_setup(U)
        st, sig = signal_instance(E, st, mode)
        strong = E.loader.cls(WCB, "StrongFunction")
        E.schema[("isinstance", "psygnal._weak_callback:StrongFunction")] = lambda E, st, v: STRONG(to_term(v))
        inst = SV(fresh_v("owner"), "instance")
        E.schema[("inst", "isinstance")] = None
        E.schema[("instref", "()")] = lambda E, st, f, ca, ctx: [(st, inst)]
        warned = []

        def warn(E, st, ca, ctx, f):
            return [(st.g(warned=True), None)]
        E.stubs["warnings.warn"] = warn
        slots = st.d(st.f(sig, "_slots"))
        U.must_fail("satisfiable", st, z3.BoolVal(False))
        for kind, s, state in U.run(st, f"{SIG}:SignalInstance.__getstate__", [sig]):
            U.oblige("__getstate__ does not raise", s, kind == "ret")
            if kind != "ret":
                continue
            U.frame("__getstate__ changes nothing", st, s, {("g", "warned")})
            j = z3.Int("j_w")
            someweak = z3.Exists([j], z3.And(0 <= j, j < slots.zn(), z3.Not(STRONG(to_term(slots.at(j))))))
            U.oblige("a warning exactly when weakly held callbacks are dropped", s,
                     someweak if s.ghost.get("warned") else z3.Not(someweak))
            cls = E.loader.cls(SIG, "SignalInstance")
            s, new = E.alloc(s, cls, {})
            for kind2, s2, v in U.run(s, f"{SIG}:SignalInstance.__setstate__", [new, state]):
                U.oblige("__setstate__ does not raise", s2, kind2 == "ret")
                if kind2 != "ret":
                    continue
                check_same(U, E, st, s2, sig, new, slots, mode, inst)


def check_same(U, E, st, s, sig, new, slots, mode, inst):
    for f in ("_name", "_signature", "_description", "_check_nargs_on_connect", "_check_types_on_connect", "_is_blocked", "_is_paused", "_reemission",
              "_priority_in_use"):
        if f not in s.obj(new).fields:
            U.oblige(f"restored {f}", s, False)
        else:
            U.oblige(f"restored {f}", s, lib.same(E, s, s.f(new, f), st.f(sig, f)))
    U.oblige("held arguments are restored", s, lib.same_seq(E, s, s.d(s.f(new, "_args_queue")), st.d(st.f(sig, "_args_queue"))))
    U.oblige("an emission of the original that is in progress is not one of the copy", s, z3.And(s.d(s.f(new, "_emit_queue")).zn() == 0, zi(s.f(new, "_recursion_depth")) == 0, zi(s.f(new, "_max_recursion_depth")) == 0))
    U.oblige("the copy has queues of its own", s, z3.BoolVal(s.f(new, "_args_queue") != st.f(sig, "_args_queue") and s.f(new, "_emit_queue") != st.f(sig, "_emit_queue") and s.f(new, "_slots") != st.f(sig, "_slots")))
    out = s.d(s.f(new, "_slots"))
    j, k, a, b = z3.Int("j_s"), z3.Int("k_s"), fresh_int("a"), fresh_int("b")
    U.oblige("only strongly held callbacks of the signal are restored", s,
             z3.Implies(z3.And(0 <= a, a < out.zn()), z3.Exists([j], z3.And(0 <= j, j < slots.zn(), STRONG(to_term(slots.at(j))), to_term(out.at(a)) == to_term(slots.at(j))))))
    U.oblige("every strongly held callback is restored", s,
             z3.Implies(z3.And(0 <= b, b < slots.zn(), STRONG(to_term(slots.at(b)))),
                        z3.Exists([k], z3.And(0 <= k, k < out.zn(), to_term(out.at(k)) == to_term(slots.at(b))))))
    c, d = fresh_int("c"), fresh_int("d")
    U.oblige("restored callbacks keep their order", s,
             z3.Implies(z3.And(0 <= c, c < d, d < out.zn()),
                        z3.Exists([j, k], z3.And(0 <= j, j < k, k < slots.zn(), to_term(out.at(c)) == to_term(slots.at(j)), to_term(out.at(d)) == to_term(slots.at(k))))))
    U.must_fail("the restored state is consistent", s, z3.BoolVal(False))
    inner = s.f(new, "_run_emit_loop_inner")
    U.oblige("emission follows the declared mode", s, z3.BoolVal(
        isinstance(inner, BM) and inner.self_ == new and inner.fn.qual.endswith({IMM: "immediate", QUE: "queued", LAT: "latest_only"}[mode])))
    U.oblige("a lock of its own, not held", s, z3.And(z3.BoolVal(s.f(new, "_lock") != st.f(sig, "_lock")), zi(s.f(s.f(new, "_lock"), "depth")) == 0))
    for s2, v in E.call(s, s.f(new, "_instance"), CallArgs([]), U.ctx(SIG)):
        U.oblige("bound to the same owner", s2, z3.Or(lib.same(E, s2, v, inst), z3.And(lib.same(E, s2, v, None), z3.Not(lib.alive(inst.t)))))


@unit(["C21"], "pickle round trip of a StrongFunction: same function, bound arguments, priority, limit and identity",
      ["StrongFunction.__getstate__", "StrongFunction.__setstate__", "StrongFunction.cb", "StrongFunction.dereference"])
def u_strong(U):
    E, st, _ = desc_setup(U)
    cls = E.loader.cls(WCB, "StrongFunction")
    names = {"_key": "str", "_obj_module": "str", "_obj_qualname": "str", "_object_repr": "str", "_on_ref_error": "str"}
    fields = {k: SV(fresh_v(k), h) for k, h in names.items()}
    args, ks = arb_seq(None, "bound"), (SV(fresh_v("kwv")),)
    st = st.assume(args.zn() >= 0)
    st, kw = E.alloc(st, Ext("builtins.dict"), data=DictC({"k": ks[0]}), kind="dict")
    mx = ite(fresh_bool("limited"), SInt(fresh_int("max_args")), None)
    f = SV(fresh_v("function"), "callable")
    fields.update(_max_args=mx, _alive=SBool(fresh_bool("alive_flag")), priority=SInt(fresh_int("priority")), _f=f, _args=args, _kwargs=kw)
    st, cb = E.alloc(st, cls, fields)
    for kind, s, state in U.run(st, f"{WCB}:StrongFunction.__getstate__", [cb]):
        U.oblige("__getstate__ does not raise", s, kind == "ret")
        U.frame("__getstate__", st, s, ())
        if kind != "ret":
            continue
        s, new = E.alloc(s, cls, {})
        for kind2, s2, v in U.run(s, f"{WCB}:StrongFunction.__setstate__", [new, state]):
            U.oblige("__setstate__ does not raise", s2, kind2 == "ret")
            if kind2 != "ret":
                continue
            for k, v0 in fields.items():
                have = k in s2.obj(new).fields
                U.oblige(f"restored {k}", s2, lib.same(E, s2, s2.f(new, k), v0) if have else False)
            # the restored callback behaves like the original
            logs = []

            def call(E, st, fv, ca, ctx):
                return [(st.g(call=(ca.seq(), dict(ca.kw))), None)]
            E.schema[("callable", "()")] = call
            em = arb_seq(None, "emitted")
            s2 = s2.assume(em.zn() >= 0)
            r1 = [(q.ghost.get("call")) for k, q, _ in U.run(s2, f"{WCB}:StrongFunction.cb", [cb, em]) if k == "ret"]
            r2 = [(q.ghost.get("call"), q) for k, q, _ in U.run(s2, f"{WCB}:StrongFunction.cb", [new, em]) if k == "ret"]
            U.oblige("the copy can be called like the original", s2, z3.BoolVal(len(r1) == len(r2) > 0))
            for a in r1:
                for b, q in r2:
                    if a is None or b is None:
                        U.oblige("the copy calls its function", q, False)


@unit(["C21"], "copies of a SignalGroup are new groups on the same instance", ["SignalGroup.__copy__", "SignalGroup.__deepcopy__"])
def u_group_copy(U):
    E, st, _ = desc_setup(U)
    cls = E.loader.cls(GRP, "SignalGroup")
    relay = E.loader.cls(GRP, "SignalRelay")
    inst = SV(fresh_v("owner"), "instance")
    E.schema[("instref", "()")] = lambda E, st, f, ca, ctx: [(st, inst)]
    st, r = E.alloc(st, relay, {"_instance": SV(fresh_v("ref"), "instref")})
    st, g = E.alloc(st, cls, {"_psygnal_relay": r})

    def new(E, st, ca, ctx, c):
        st, o = E.alloc(st, c, {})
        return [(st.g(made=st.ghost.get("made", ()) + ((o, ca.kw.get("instance", ca.pos[0] if ca.pos else None)),)), o)]
    E.stubs[f"{GRP}:SignalGroup"] = new
    for meth, args in (("__copy__", [g]), ("__deepcopy__", [g, SV(fresh_v("memo"), "dict")])):
        for kind, s, v in U.run(st, f"{GRP}:SignalGroup.{meth}", args):
            m = s.ghost.get("made", ())
            U.oblige(f"{meth} returns a group constructed anew for the same instance", s,
                     z3.And(z3.BoolVal(kind == "ret" and len(m) == 1 and v == m[0][0]), lib.same(E, s, m[0][1], inst) if len(m) == 1 else z3.BoolVal(False)))
            U.frame(f"{meth} leaves the original as it was", st, s, {("g", "made")})
