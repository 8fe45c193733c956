"""C19: evented pydantic models (_evented_model.py)."""
from .common import *
import itertools

EM = "psygnal._evented_model"
GD_ = "psygnal._group_descriptor"
I = z3.IntSort()
B = z3.BoolSort()
AV = z3.ArraySort(V, V)
AB = z3.ArraySort(V, B)
for _m in ("__setattr__", "__copy__", "__deepcopy__", "copy", "__init__"):
    lib.EXT_BASE[("pydantic.BaseModel", _m)] = "pydantic.BaseModel." + _m
PRIVATE = ("_events", "_changes_queue", "_primary_changes", "_delay_check_semaphore")
TOUCHED = {("g", k) for k in ("val", "has", "set", "emitted", "asked", "rechecked", "err", "log_n")}


def fa(vs, body, *pats):
    """a universally quantified fact, with those patterns that can be used as such"""
    ok = [p for p in pats if z3.is_app(p) and p.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and p.num_args()]
    return z3.ForAll(vs, body, **({"patterns": ok} if ok else {}))


class Model:
    """An EventedModel in an arbitrary state.

    Invariant assumed (and shown to be kept): the names assigned directly are among the queued ones; the number of
    open delays is not negative. The current value of field or property x is val[x], when has[x]."""

    def __init__(self, U, st, queue=None, primary=None, sem=None):
        E = self.E = U.E
        self.U = U
        EM_cls = E.loader.cls(EM, "EventedModel")
        if queue is None:
            st, queue = lib.fresh_dict(st, "queued", None, "str")
            queue = DictS(queue.has, queue.val, queue.n)
        if primary is None:
            PH = fresh_fun("primary", V, B)
            n = fresh_int("n_primary")
            st, f, idx = lib.keys_order(st, lambda t: PH(t), n, "prim")
            primary = SetS(lambda t: PH(t), n, Seq(n, lambda k: SV(f(zlen(k)), "str")), lambda t: idx(t))
        self.q0, self.p0 = queue, primary
        st, self.queue = E.alloc(st, Ext("builtins.dict"), data=queue, kind="dict")
        st, self.primary = E.alloc(st, Ext("builtins.set"), data=primary, kind="set")
        E.schema[("keyhint", self.queue.oid)] = "str"
        t = z3.Const("t_model", V)
        self.sem0 = fresh_int("delays") if sem is None else sem
        st = st.assume(zlen(self.sem0) >= 0)
        if isinstance(queue, DictS) and isinstance(primary, SetS):
            st = st.assume(zlen(queue.n) >= 0, zlen(primary.n) >= 0)
            st = st.assume(fa([t], z3.Implies(primary.has(t), queue.has(t)), primary.has(t)))
        self.val0, self.has0 = z3.Const("val!%d" % fresh_v("x").hash(), AV), z3.Const("has!%d" % fresh_v("x").hash(), AB)
        self.events = SV(fresh_v("events"), "events")
        self.ISSIG = fresh_fun("is_signal", V, B)
        self.SIGNAL = fresh_fun("signal_of", V, V)
        self.NSLOTS = fresh_fun("n_slots", V, I)
        self.EQ = z3.Function("equal_as_field", V, V, V, B)
        self.relay_n = fresh_int("n_relay_slots")
        st = st.assume(self.relay_n >= 0, fa([t], self.NSLOTS(t) >= 0, self.NSLOTS(t)), self.events.t != V.none)
        st, self.obj = E.alloc(st, EM_cls, {"_events": self.events, "_changes_queue": self.queue, "_primary_changes": self.primary,
                                            "_delay_check_semaphore": SInt(self.sem0) if z3.is_expr(self.sem0) else self.sem0})
        self.st = st.g(val=self.val0, has=self.has0, set=(), emitted=(), rechecked=(), asked=())
        S = E.schema
        self.RESERVED = fresh_fun("is_group_attribute", V, B)
        S[("groupattr", "()")] = lambda E, st, f, ca, ctx: [(st, SV(fresh_v("something")))]
        S[("getattr", "dynamic")] = self.get
        S[("events", "in")] = lambda E, st, c, x, ctx: [(st, self.ISSIG(to_term(x)))]
        S[("events", "[]")] = self.signal
        S[("events", "_psygnal_relay")] = lambda E, st, v, ctx: [(st, SV(self.SIGNAL(to_term("<relay>")), "relay"))]
        S[("relay", "len")] = lambda E, st, v, ctx: [(st, SInt(self.relay_n))]
        S[("signal", "emit")] = lambda E, st, v, ctx: [(st, Partial(Ext("signal.emit"), [v], {}))]        # calling a signal is emitting it
        E.stubs["signal.emit"] = lambda E, st, ca, ctx, fn: E.schema[("signal", "()")](E, st, ca.pos[0], CallArgs(list(ca.pos[1:]), ca.star, ca.kw), ctx)
        S[("signal", "len")] = lambda E, st, v, ctx: [(st, SInt(self.NSLOTS(v.t)))]
        E.stubs[f"{EM}:EventedModel.__setattr__"] = self.set_private
        E.stubs[f"{EM}:_check_field_equality"] = self.equality
        E.stubs["psygnal._group_descriptor:_check_field_equality"] = self.equality
        E.assumptions.add("reading a field or property of a model changes nothing and fails only with AttributeError")

    def delays(self, st):
        return zt(st.f(self.obj, "_delay_check_semaphore"))

    def signal(self, E, st, o, k, ctx):
        out = []
        for s, b in E.split(st, self.ISSIG(to_term(k))):
            if b:
                out.append((s, SV(self.SIGNAL(to_term(k)), "signal")))
            else:
                s2, e = E.new_exc(s, exc_cls(E, "builtins.KeyError"), ())
                ctx.sink.append((s2, e))
        return out

    def get(self, E, st, o, name, default, ctx):
        nm = to_term(name)
        out = []
        if isinstance(o, SV) and o.cls == "events":
            # an attribute of the group: the signal of that name, unless the name is one of the group's own (connect, all, ...)
            for s, b in E.split(st, z3.And(self.ISSIG(nm), z3.Not(self.RESERVED(nm)))):
                if b:
                    out.append((s, SV(self.SIGNAL(nm), "signal")))
                else:
                    out.append((s.assume(self.RESERVED(nm)), SV(fresh_v("group_attribute"), "groupattr")))
                    s = s.assume(z3.Not(self.RESERVED(nm)))
                    s2, e = E.new_exc(s, exc_cls(E, "builtins.AttributeError"), ())
                    ctx.sink.append((s2, e))
            return out
        if not (isinstance(o, Ref) and o.oid == self.obj.oid):
            raise Unsupported("attribute of something else")
        for s, b in E.split(st, st.ghost["has"][nm]):
            if b:
                out.append((s, SV(s.ghost["val"][nm])))
            elif default is not UNBOUND:
                out.append((s, default))
            else:
                s2, e = E.new_exc(s, exc_cls(E, "builtins.AttributeError"), ())
                ctx.sink.append((s2, e))
        return out

    def set_private(self, E, st, ca, ctx, fn):
        o, name, v = ca.pos
        if isinstance(name, str) and name in PRIVATE and isinstance(o, Ref) and o.oid == self.obj.oid:
            return [(st.setf(o, name, v), None)]
        raise Unsupported(f"assignment of {name!r}")

    def equality(self, E, st, ca, ctx, fn):
        fr = dict(zip(("cls", "name", "before", "after"), ca.pos), **ca.kw)
        E.obligation("values are compared by the operators of the model's class", st, z3.BoolVal(fr["cls"] == st.obj(self.obj).cls or fr["cls"] == Ext(self.E.loader.cls(EM, "EventedModel").qual)) if not isinstance(fr["cls"], SV) else lib.same(E, st, fr["cls"], E_type(E, st, self.obj)))
        return [(st, SBool(self.EQ(to_term(fr["name"]), to_term(fr["before"]), to_term(fr["after"]))))]

    def havoc(self, st, values=True):
        """code run by a callback or a property setter: other fields may change, the changes are queued (delayed) or settled"""
        t = z3.Const("t_hav", V)
        if values:
            st = st.g(val=z3.FreshConst(AV, "val"), has=z3.FreshConst(AB, "has"))
        q, p = st.d(self.queue), st.d(self.primary)
        q, p = lib.dict_to_s(self.E, q), lib.set_to_s(p)
        QH, QV, PH, n, k = fresh_fun("q_has", V, B), fresh_fun("q_val", V, V), fresh_fun("p_has", V, B), fresh_int("n_q"), fresh_int("n_p")
        st = st.assume(n >= zlen(q.n), k >= zlen(p.n), fa([t], z3.And(z3.Implies(q.has(t), z3.And(QH(t), QV(t) == to_term(q.val(t)))), z3.Implies(p.has(t), PH(t)), z3.Implies(PH(t), QH(t))), QH(t), PH(t)),
                       z3.Implies(n == 0, fa([t], z3.Not(QH(t)), QH(t))))
        return st.setd(self.queue, DictS(lambda t: QH(t), lambda t: SV(QV(t)), n)).setd(self.primary, SetS(lambda t: PH(t), k))


def zt(v):
    return v.t if isinstance(v, SInt) else z3.IntVal(int(v))


def E_type(E, st, v):
    [(s, t)] = lib.FUNCS["builtins.type"](E, st, CallArgs([v]), None)
    return t


@unit("C19", "the settling of changes: queued changes are compared, the changed ones emitted once each with their value, and nothing stays queued",
      ["EventedModel._check_if_values_changed_and_emit_if_needed", "ComparisonDelayer.__init__", "ComparisonDelayer.__enter__", "ComparisonDelayer.__exit__"], timeout=180)
def u_check(U):
    E = U.E
    st = St()
    M = Model(U, st)
    t = z3.Const("t_chk", V)
    j = z3.Int("j_chk")
    st = M.st
    q0, p0, val = M.q0, M.p0, M.val0
    CH = lambda t: z3.Not(M.EQ(t, val[t], to_term(q0.val(t))))
    st = st.assume(fa([t], z3.Implies(q0.has(t), z3.And(M.has0[t], M.ISSIG(t))), q0.has(t)),
                   (q0.n == 0) == z3.Not(z3.Exists([t], q0.has(t))))
    names, n1 = p0.keys, p0.n
    R1, R2, Q = fresh_fun("rank", I, I), fresh_fun("rank2", I, I), fresh_fun("changed", I, V)
    st = st.assume(R1(0) == 0, R2(0) == R1(n1))
    q1 = DictS(lambda t: z3.And(q0.has(t), z3.Not(p0.has(t))), q0.val, q0.n - n1)

    def left(m):
        m = zlen(m)
        return DictS(lambda t: z3.And(q0.has(t), z3.Not(z3.And(p0.has(t), p0.pos(t) < m))), q0.val, q0.n - m)
    U.ghost_em = None
    lists = lambda R: (lambda m: Seq(R(zlen(m)), lambda j: (SV(Q(zlen(j)), "str"), SV(val[Q(zlen(j))]))))
    tot = {}

    def spec(L):
        seq = L.seq
        if seq is names or (seq.items is None and seq.at(0) is not None and not isinstance(seq.at(0), tuple) and "prim" in str(to_term(seq.at(fresh_int("pr"))))):
            def inv(s, m):
                m = zlen(m)
                return [("count", z3.And(R1(m) >= 0, R1(m) <= m)),
                        ("what is to be emitted is a changed name assigned directly", fa([j], z3.Implies(z3.And(0 <= j, j < R1(m)), z3.And(p0.has(Q(j)), CH(Q(j)), p0.pos(Q(j)) < m, R1(p0.pos(Q(j))) == j)), Q(j))),
                        ("every changed name assigned directly is to be emitted", fa([t], z3.Implies(z3.And(p0.has(t), p0.pos(t) < m, CH(t)), z3.And(R1(p0.pos(t)) >= 0, R1(p0.pos(t)) < R1(m), Q(R1(p0.pos(t))) == t)), p0.pos(t)))]
            def facts(m):
                m = zlen(m)
                x = to_term(names.at(m))
                return [R1(m + 1) == R1(m) + z3.If(CH(x), 1, 0), z3.Implies(CH(x), Q(R1(m)) == x)]
            return {"cands": [left, lists(R1)], "inv": inv, "facts": facts}
        el = seq.at(fresh_int("pr"))
        if isinstance(el, tuple) and "changed" in str(to_term(el[0])):
            tot["list"] = seq
            sg = lambda m: seq_sub(Seq(seq.n, lambda j: SV(M.SIGNAL(to_term(seq.at(j)[0])), "signal")), 0, zlen(m))
            vl = lambda m: seq_sub(Seq(seq.n, lambda j: seq.at(j)[1]), 0, zlen(m))
            empty = lambda st: z3.And(zlen(lib.dict_to_s(E, st.d(M.queue)).n) == 0, zlen(lib.set_to_s(st.d(M.primary)).n) == 0)
            return {"cands": [sg, vl], "inv": lambda s, m: [("nothing is queued at first", z3.Implies(zlen(m) == 0, empty(s)))]}
        # the second loop: what is left in the queue
        key = (lambda m: to_term(seq.at(m)[0])) if isinstance(el, tuple) else (lambda m: to_term(seq.at(m)))
        x = key(fresh_int("pr"))
        IX = fresh_fun("at", V, I)      # position of a key, from the enumeration
        def facts(m):
            m = zlen(m)
            x = key(m)
            return [R2(m + 1) == R2(m) + z3.If(CH(x), 1, 0), z3.Implies(CH(x), z3.And(Q(R2(m)) == x, IX(x) == m))]
        def inv(s, m):
            m = zlen(m)
            return [("count", z3.And(R2(m) >= R1(n1), R2(m) <= R1(n1) + m)),
                    ("a changed dependent", fa([j], z3.Implies(z3.And(R1(n1) <= j, j < R2(m)), z3.And(q1.has(Q(j)), CH(Q(j)), IX(Q(j)) < m, 0 <= IX(Q(j)), key(IX(Q(j))) == Q(j), R2(IX(Q(j))) == j)), Q(j))),
                    ("every changed dependent so far", fa([j], z3.Implies(z3.And(0 <= j, j < m, CH(key(j))), z3.And(R1(n1) <= R2(j), R2(j) < R2(m), Q(R2(j)) == key(j))), key(j))),
                    ("what was found before stays", fa([j], z3.Implies(z3.And(0 <= j, j < R1(n1)), z3.And(p0.has(Q(j)), CH(Q(j)), R1(p0.pos(Q(j))) == j)), Q(j)))]
        tot["n2"] = seq.zn()
        return {"cands": [lists(R2)], "inv": inv, "facts": facts}
    E.loop_specs["*"] = spec
    e0 = Seq(z3.IntVal(0), lambda j: SV(V.none, "signal"))
    st = st.g(em_sig=Seq.of(()), em_val=Seq.of(()))

    def emit(E, st, f, ca, ctx):
        E.obligation("signals are emitted with one value", st, z3.BoolVal(len(ca.pos) == 1 and not ca.kw))
        E.obligation("checks are delayed while listeners run", st, M.delays(st) >= 1)
        E.obligation("nothing is queued any more when listeners start to run", st, z3.Implies(Seq.of(st.ghost["em_sig"]).zn() == 0 if isinstance(st.ghost["em_sig"], tuple) else st.ghost["em_sig"].zn() == 0,
                     z3.And(zlen(lib.dict_to_s(E, st.d(M.queue)).n) == 0, zlen(lib.set_to_s(st.d(M.primary)).n) == 0)))
        st = st.g(em_sig=seq_append(st.ghost["em_sig"], f), em_val=seq_append(st.ghost["em_val"], ca.pos[0]))
        if not st.ghost.get("in_emission"):
            pass
        st = M.havoc(st)
        s, e = E.new_exc(st, exc_cls(E, ELE), ())
        ctx.sink.append((s.g(err=e), e))
        return [(st, None)]
    E.schema[("signal", "()")] = emit

    def again(E, st, ca, ctx, fn):
        st = st.g(rechecked=st.ghost["rechecked"] + (st.f(M.obj, "_delay_check_semaphore"),))
        st = st.g(val=z3.FreshConst(AV, "val"), has=z3.FreshConst(AB, "has")).setd(M.queue, DictC({})).setd(M.primary, SetC(()))
        s, e = E.new_exc(st, exc_cls(E, ELE), ())
        ctx.sink.append((s.g(err2=e), e))
        return [(st, None)]
    q = f"{EM}:EventedModel._check_if_values_changed_and_emit_if_needed"
    E.stubs[q] = again
    pre = st
    idle = z3.Or(M.sem0 > 0, q0.n == 0)
    for kind, s, v in U.run(pre, q, [M.obj]):
        i = fresh_int("i")
        sg, vl = s.ghost["em_sig"], s.ghost["em_val"]
        sg = Seq.of(sg) if isinstance(sg, tuple) else sg
        vl = Seq.of(vl) if isinstance(vl, tuple) else vl
        touched = {("d", M.queue.oid), ("d", M.primary.oid), ("f", M.obj.oid, "_delay_check_semaphore")} | TOUCHED | {("g", "em_sig"), ("g", "em_val"), ("g", "err2")}
        same_q = [loops_same(E, s, s.d(M.queue), q0), set_same(s.d(M.primary), p0)]
        U.oblige("nothing is done while checks are delayed or nothing is queued", s, z3.Implies(idle, z3.And(*same_q, sg.zn() == 0, z3.BoolVal(not s.ghost["rechecked"]), s.ghost["val"] == val)))
        U.oblige("the number of open delays is what it was", s, M.delays(s) == M.sem0)
        U.frame("settling", pre, s, touched)
        qd, pd = lib.dict_to_s(E, s.d(M.queue)), lib.set_to_s(s.d(M.primary))
        U.oblige("nothing stays queued", s, z3.Implies(z3.Not(idle), z3.And(qd.n == 0, pd.n == 0)))
        U.oblige("only names with a listener error fail", s, z3.BoolVal(kind == "ret" or v in (s.ghost.get("err"), s.ghost.get("err2"))))
        U.oblige("an error of a listener is not swallowed", s, z3.BoolVal(kind == "raise" or ("err" not in s.ghost and "err2" not in s.ghost)))
        U.oblige("after the emissions, changes made by listeners are settled in turn, with the delays as before", s, z3.Implies(sg.zn() > 0, z3.And(z3.BoolVal(len(s.ghost["rechecked"]) == 1), *[zt(x) == M.sem0 for x in s.ghost["rechecked"]])))
        full = z3.BoolVal("err" not in s.ghost)
        x = fresh_v("x")
        k = fresh_int("k")
        anyp = R1(n1) > 0
        U.oblige("each emission is that of a changed name (of a dependent only if a name assigned directly changed), with its value", s, z3.Implies(z3.And(0 <= i, i < sg.zn()),
                 z3.And(to_term(sg.at(i)) == M.SIGNAL(Q(i)), to_term(vl.at(i)) == val[Q(i)], q0.has(Q(i)), CH(Q(i)))))
        U.oblige("one value per emission", s, sg.zn() == vl.zn())
        U.oblige("no name is emitted twice", s, z3.Implies(z3.And(0 <= i, i < k, k < sg.zn()), Q(i) != Q(k)))
        U.oblige("every changed name assigned directly is emitted", s, z3.Implies(z3.And(z3.Not(idle), full, p0.has(x), CH(x)), z3.And(R1(p0.pos(x)) < sg.zn(), Q(R1(p0.pos(x))) == x)))
        U.oblige("no dependent is emitted when no name assigned directly changed", s, z3.Implies(sg.zn() > 0, z3.And(p0.has(Q(0)), CH(Q(0)))))
        qkeys = tot.get("qkeys")
        y = z3.Exists([k], z3.And(0 <= k, k < sg.zn(), Q(k) == x))
        U.oblige("every changed dependent is emitted when a name assigned directly changed", s, z3.Implies(z3.And(z3.Not(idle), full, anyp, q0.has(x), z3.Not(p0.has(x)), CH(x)), y))
    U.must_fail("satisfiable", pre.assume(z3.Not(idle)), z3.BoolVal(False))


@unit("C19", "the settling of changes, for one name and one dependent (decided exactly)", ["EventedModel._check_if_values_changed_and_emit_if_needed"], bound="one name, one dependent")
def u_check_two(U):
    E = U.E
    for names, sem in ((("a",), 0), (("b",), 0), (("a", "b"), 0), ((), 0), (("a",), 1)):
        st = St()
        olds = {k: SV(fresh_v("old_" + k)) for k in ("a", "b")}
        T = {k: fresh_v("name_" + k) for k in olds}
        queue = DictS(lambda t: z3.Or(t == T["a"], t == T["b"]), lambda t: ite(t == T["a"], olds["a"], olds["b"]), z3.IntVal(2), Seq.of([SV(T[k], "str") for k in "ab"]), lambda t: z3.If(t == T["a"], z3.IntVal(0), z3.IntVal(1)))
        prim = SetS(lambda t: z3.Or(*[t == T[k] for k in names]) if names else z3.BoolVal(False), z3.IntVal(len(names)), Seq.of([SV(T[k], "str") for k in names]))
        M = Model(U, st, queue=queue, primary=prim, sem=sem)
        val = M.val0
        st = M.st.assume(T["a"] != T["b"], *[z3.And(M.has0[T[k]], M.ISSIG(T[k])) for k in olds])
        CH = {k: z3.Not(M.EQ(T[k], val[T[k]], olds[k].t)) for k in olds}

        def emit(E, st, f, ca, ctx):
            E.obligation("signals are emitted with one value", st, z3.BoolVal(len(ca.pos) == 1 and not ca.kw))
            E.obligation("checks are delayed while listeners run", st, M.delays(st) >= 1)
            if not st.ghost["emitted"]:
                E.obligation("nothing is queued any more when listeners start to run", st, z3.And(zlen(lib.dict_to_s(E, st.d(M.queue)).n) == 0, zlen(lib.set_to_s(st.d(M.primary)).n) == 0))
            st = st.g(emitted=st.ghost["emitted"] + ((f.t, to_term(ca.pos[0])),))
            return [(M.havoc(st), None)]
        E.schema[("signal", "()")] = emit

        def again(E, st, ca, ctx, fn):
            return [(st.g(rechecked=st.ghost["rechecked"] + (st.f(M.obj, "_delay_check_semaphore"),)).setd(M.queue, DictC({})).setd(M.primary, SetC(())), None)]
        q = f"{EM}:EventedModel._check_if_values_changed_and_emit_if_needed"
        E.stubs[q] = again
        for kind, s, v in U.run(st, q, [M.obj]):
            U.oblige("settling does not fail", s, z3.BoolVal(kind == "ret"))
            em = s.ghost["emitted"]
            anyp = z3.Or(*[CH[k] for k in names if not sem])
            for k in olds:
                hits = z3.Sum([z3.If(z3.And(f == M.SIGNAL(T[k]), v == val[T[k]]), 1, 0) for f, v in em] + [z3.IntVal(0)])
                U.oblige("each changed name is emitted once, with its value, if one assigned directly changed", s, z3.Implies(M.SIGNAL(T["a"]) != M.SIGNAL(T["b"]), hits == z3.If(z3.And(CH[k], anyp), 1, 0)))
            U.oblige("nothing else is emitted", s, len(em) == z3.Sum([z3.If(z3.And(CH[k], anyp), 1, 0) for k in olds]))
            U.oblige("the number of open delays is what it was", s, M.delays(s) == sem)
            if sem:
                U.oblige("what is queued stays queued while checks are delayed", s, z3.And(z3.BoolVal(not em), loops_same(E, s, s.d(M.queue), queue), set_same(s.d(M.primary), prim)))
                continue
            qd, pd = lib.dict_to_s(E, s.d(M.queue)), lib.set_to_s(s.d(M.primary))
            U.oblige("nothing stays queued", s, z3.And(zlen(qd.n) == 0, zlen(pd.n) == 0))
            U.oblige("changes made by listeners are settled in turn", s, z3.BoolVal(len(s.ghost["rechecked"]) == (1 if em else 0)))
        U.must_fail("satisfiable", st, z3.BoolVal(False))


def loops_same(E, s, a, b):
    t = z3.FreshConst(V, "t_same")
    a = lib.dict_to_s(E, a)
    return z3.And(a.n == b.n, a.has(t) == b.has(t), z3.Implies(b.has(t), to_term(a.val(t)) == to_term(b.val(t))))


def set_same(a, b):
    t = z3.FreshConst(V, "t_same")
    a = lib.set_to_s(a)
    return z3.And(a.n == b.n, a.has(t) == b.has(t))


@unit("C19", "assigning with dependents: what is about to change is queued with its value of before, then the assignment is made as in pydantic",
      ["EventedModel._setattr_impl", "EventedModel._setattr_with_dependents", "ComparisonDelayer.__init__", "ComparisonDelayer.__enter__", "ComparisonDelayer.__exit__"], timeout=180)
def u_impl(U):
    E = U.E
    for declared in (True, False):
        st = St()
        M = Model(U, st)
        q0, p0, val, has = M.q0, M.p0, M.val0, M.has0
        t, j = z3.Const("t_imp", V), z3.Int("j_imp")
        name, value = SV(fresh_v("name"), "str"), SV(fresh_v("value"))
        DEP = fresh_fun("depends", V, B)
        nd = fresh_int("n_deps")
        st, f, idx = lib.keys_order(M.st, lambda t: DEP(t), nd, "dep")
        st, deps = E.alloc(st, Ext("builtins.set"), data=SetS(lambda t: DEP(t), nd, Seq(nd, lambda k: SV(f(zlen(k)), "str")), lambda t: idx(t)), kind="set")
        st, od = lib.fresh_dict(st, "field_dependents", None, "str")
        st, fd = E.alloc(st, Ext("builtins.dict"), data=DictS(lambda t: z3.Or(t == name.t, od.has(t)) if declared else z3.And(t != name.t, od.has(t)), lambda t: ite(t == name.t, deps, od.val(t)), od.n), kind="dict")
        st = st.setf(M.obj, "__field_dependents__", fd)
        st = st.assume(M.ISSIG(name.t), fa([t], z3.Implies(DEP(t), M.ISSIG(t)), DEP(t)))
        deps_of = (lambda t: DEP(t)) if declared else (lambda t: z3.BoolVal(False))
        n_deps = nd if declared else z3.IntVal(0)
        heard_dep = lambda t: z3.And(deps_of(t), M.NSLOTS(M.SIGNAL(t)) > 0)
        # the set comprehension: ranks of the dependents that are listened to
        R, Q = fresh_fun("rank", I, I), fresh_fun("heard", I, V)
        st = st.assume(R(0) == 0)

        def facts1(m):
            m = zlen(m)
            return [R(m + 1) == R(m) + z3.If(heard_dep(f(m)), 1, 0), z3.Implies(heard_dep(f(m)), Q(R(m)) == f(m))]

        def inv1(s, m):
            m = zlen(m)
            return [("count", z3.And(R(m) >= 0, R(m) <= m)),
                    ("dependents found are listened to", fa([j], z3.Implies(z3.And(0 <= j, j < R(m)), z3.And(heard_dep(Q(j)), idx(Q(j)) < m, R(idx(Q(j))) == j)), Q(j))),
                    ("every dependent listened to is found", fa([t], z3.Implies(z3.And(heard_dep(t), idx(t) < m), z3.And(R(idx(t)) >= 0, R(idx(t)) < R(m), Q(R(idx(t))) == t)), idx(t)))]
        before = lambda t: z3.If(has[t], val[t], NOVALUE(t))
        NOVALUE = fresh_fun("absent", V, V)
        qn = z3.If(q0.has(name.t), q0.n, q0.n + 1)
        tot = {}

        def spec(L):
            if L.seq is not None and "dep!" in str(to_term(L.seq.at(fresh_int("pr")))) or L.seq is st.d(deps).keys:
                return {"cands": [lambda m: Seq(R(zlen(m)), lambda j: SV(Q(zlen(j)), "str"))], "facts": facts1, "inv": inv1}
            key = lambda m: to_term(L.seq.at(m))
            q1 = L.st0.d(M.queue)
            rec = lib.DictRec(DictS(q1.has, q1.val, q1.n), lambda d, m: lib.dict_to_s(E, lib.dict_set(E, None, d, SV(key(m), "str"), ite(d.has(key(m)), d.val(key(m)), SV(val[key(m)])))))
            pos = L.seq
            def inv(s, m):
                d, m = rec.at(m), zlen(m)
                return [("what was queued stays", fa([t], z3.Implies(q1.has(t), z3.And(d.has(t), to_term(d.val(t)) == to_term(q1.val(t)))), d.has(t))),
                        ("what is new is the name or a dependent, with its value", fa([t], z3.Implies(z3.And(d.has(t), z3.Not(q1.has(t))), z3.And(z3.Or(deps_of(t), t == name.t), to_term(d.val(t)) == val[t])), d.has(t))),
                        ("the dependents so far are queued", fa([j], z3.Implies(z3.And(0 <= j, j < m), d.has(key(j))), key(j))),
                        ("size", d.n >= q1.n)]
            return {"cands": [rec.at], "facts": rec.facts, "inv": inv, "base": rec.base}
        E.loop_specs["*"] = spec
        for k, v in (("set", ()),):
            st = st.g(**{k: v})
        st = st.assume(fa([t], z3.Implies(M.ISSIG(t), has[t]), M.ISSIG(t)))
        E.assumptions.add("fields and property setters of a model that is set have a value (reading one gives it)")

        def sup(E, st, ca, ctx, fn):
            st = st.g(set=st.ghost["set"] + (tuple(ca.pos),), atset=(st.d(M.queue), st.d(M.primary), M.delays(st)))
            st = M.havoc(st)
            for nm in ("user.Exception",):
                s, e = E.new_exc(st, exc_cls(E, nm), ())
                ctx.sink.append((s.g(seterr=e), e))
            return [(st, None)]
        E.stubs[f"{EM}:EventedModel._super_setattr_"] = sup

        def check(E, st, ca, ctx, fn):
            st = st.g(rechecked=st.ghost["rechecked"] + ((len(st.ghost["set"]), M.delays(st)),))
            s, e = E.new_exc(st, exc_cls(E, ELE), ())
            ctx.sink.append((s.g(err=e), e))
            return [(st, None)]
        E.stubs[f"{EM}:EventedModel._check_if_values_changed_and_emit_if_needed"] = check
        anyheard = z3.Or(M.NSLOTS(M.SIGNAL(name.t)) > 0, R(n_deps) > 0, M.relay_n > 0)
        pre = st
        for kind, s, v in U.run(pre, f"{EM}:EventedModel._setattr_with_dependents", [M.obj, name, value]):
            sets = s.ghost["set"]
            what = "with dependents" if declared else "no dependents"
            U.oblige(f"{what}: the assignment is made exactly once", s, z3.BoolVal(len(sets) == 1))
            for a in sets:
                U.oblige(f"{what}: of the attribute and value given", s, z3.And(z3.BoolVal(len(a) == 3 and a[0] == M.obj), lib.same(E, s, a[1], name), lib.same(E, s, a[2], value)))
                q, p, d = s.ghost["atset"]
                q, p = lib.dict_to_s(E, q), lib.set_to_s(p)
                x = fresh_v("x")
                U.oblige(f"{what}: checks are delayed while it is made", s, d == M.sem0 + 1)
                U.oblige(f"{what}: what was queued before stays queued, with its first value", s, z3.Implies(q0.has(x), z3.And(q.has(x), to_term(q.val(x)) == to_term(q0.val(x)))))
                U.oblige(f"{what}: when anything listens, the name is noted as assigned directly", s, z3.Implies(anyheard, p.has(name.t)))
                U.oblige(f"{what}: and nothing else is", s, p.has(x) == z3.Or(p0.has(x), z3.And(x == name.t, anyheard)))
                U.oblige(f"{what}: the name is queued with the value it had", s, z3.Implies(z3.And(anyheard, z3.Not(q0.has(name.t))), z3.And(q.has(name.t), to_term(q.val(name.t)) == val[name.t])))
                U.oblige(f"{what}: dependents listened to are queued with the value they had", s, z3.Implies(z3.And(anyheard, heard_dep(x), z3.Not(q0.has(x))), z3.And(q.has(x), to_term(q.val(x)) == val[x])))
                U.oblige(f"{what}: only the name and its dependents are added to the queue", s, z3.Implies(q.has(x), z3.Or(q0.has(x), x == name.t, deps_of(x))))
            U.oblige(f"{what}: the number of open delays is what it was", s, M.delays(s) == M.sem0)
            U.oblige(f"{what}: the changes are looked at once, after the assignment, with the delays as before", s, z3.And(z3.BoolVal(len(s.ghost["rechecked"]) == 1), *[z3.And(z3.BoolVal(a == 1), b == M.sem0) for a, b in s.ghost["rechecked"]]))
            U.oblige(f"{what}: errors are those of the assignment or of listeners", s, z3.BoolVal(kind == "ret" or v in (s.ghost.get("seterr"), s.ghost.get("err"))))
            U.oblige(f"{what}: errors are not swallowed", s, z3.BoolVal(kind == "raise" or ("err" not in s.ghost and "seterr" not in s.ghost)))
            U.frame(what, pre, s, {("d", M.queue.oid), ("d", M.primary.oid), ("f", M.obj.oid, "_delay_check_semaphore")} | TOUCHED | {("g", "seterr"), ("g", "atset")})
        U.must_fail("satisfiable", pre, z3.BoolVal(False))


@unit("C19", "assigning without dependents: made as in pydantic; the signal is emitted once with the value then held exactly when it is listened to and the value changed",
      ["EventedModel._setattr_no_dependants"])
def u_nodeps(U):
    E = U.E
    st = St()
    M = Model(U, st)
    st = M.st
    name, value = SV(fresh_v("name"), "str"), SV(fresh_v("value"))
    st = st.assume(M.ISSIG(name.t), M.has0[name.t])
    n = M.NSLOTS(M.SIGNAL(name.t))

    def sup(E, st, ca, ctx, fn):
        st = st.g(set=st.ghost["set"] + (tuple(ca.pos),), val=z3.FreshConst(AV, "val"))
        s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
        ctx.sink.append((s.g(seterr=e), e))
        return [(st.g(held=st.ghost["val"][name.t]), SV(fresh_v("sup")))]
    E.stubs[f"{EM}:EventedModel._super_setattr_"] = sup

    def emit(E, st, f, ca, ctx):
        E.obligation("emission: after the assignment, with one value", st, z3.BoolVal(len(ca.pos) == 1 and not ca.kw and len(st.ghost["set"]) == 1))
        st = st.g(emitted=st.ghost["emitted"] + ((f.t, to_term(ca.pos[0])),), val=z3.FreshConst(AV, "val"))
        s, e = E.new_exc(st, exc_cls(E, ELE), ())
        ctx.sink.append((s.g(err=e), e))
        return [(st, None)]
    E.schema[("signal", "()")] = emit
    for kind, s, v in U.run(st, f"{EM}:EventedModel._setattr_no_dependants", [M.obj, name, value]):
        sets, em = s.ghost["set"], s.ghost["emitted"]
        U.oblige("the assignment is made exactly once, of the attribute and value given", s, z3.And(z3.BoolVal(len(sets) == 1), *[z3.And(z3.BoolVal(len(a) == 3 and a[0] == M.obj), lib.same(E, s, a[1], name), lib.same(E, s, a[2], value)) for a in sets]))
        if "held" in s.ghost:
            held = s.ghost["held"]
            changed = z3.And(n > 0, z3.Not(M.EQ(name.t, held, M.val0[name.t])))
            U.oblige("emitted exactly when listened to and changed, once", s, z3.And(z3.BoolVal(len(em) <= 1), z3.BoolVal(len(em) == 1) == changed))
            for f, x in em:
                U.oblige("the name's own signal, with the value then held", s, z3.And(f == M.SIGNAL(name.t), x == held))
        else:
            U.oblige("nothing is emitted when the assignment fails", s, z3.BoolVal(not em))
        U.oblige("errors are those of the assignment or of listeners", s, z3.BoolVal(kind == "ret" or v in (s.ghost.get("seterr"), s.ghost.get("err"))))
        U.oblige("errors are not swallowed", s, z3.BoolVal(kind == "raise" or ("err" not in s.ghost and "seterr" not in s.ghost)))
        U.frame("assigning", st, s, TOUCHED | {("g", "seterr"), ("g", "held")})
    U.must_fail("satisfiable", st.assume(n > 0), z3.BoolVal(False))


@unit("C19", "assignment is dispatched: names with a signal are assigned with emission, all others as in pydantic; settable properties by their setter",
      ["EventedModel.__setattr__", "EventedModel._super_setattr_"])
def u_dispatch(U):
    E = U.E
    q = f"{EM}:EventedModel.__setattr__"
    for case in ("signal", "plain", "before init", "_events"):
        st = St()
        M = Model(U, st)
        set_private = E.stubs.pop(q)
        st = M.st
        name = "_events" if case == "_events" else SV(fresh_v("name"), "str")
        nm = to_term(name)
        value = SV(fresh_v("value"))
        st, props = lib.fresh_dict(st, "property_setters", "property", "str")
        st, pd = E.alloc(st, Ext("builtins.dict"), data=props, kind="dict")
        st = st.setf(M.obj, "__property_setters__", pd)
        if case == "before init":
            f = dict(st.obj(M.obj).fields)
            f.pop("_events")
            st = st.put(M.obj.oid, Obj(st.obj(M.obj).cls, f, st.obj(M.obj).data, st.obj(M.obj).kind))
            E.schema[("hasattr", "_events")] = lambda E, st, o, ctx: [(st, False)]
        else:
            E.schema[("hasattr", "_events")] = lambda E, st, o, ctx: [(st, True)]
        if case != "_events":
            st = st.assume(nm != to_term("_events"))
        if case == "signal":
            st = st.assume(M.ISSIG(nm))
        if case == "plain":
            st = st.assume(z3.Not(M.ISSIG(nm)))
        if case == "_events":
            st = st.assume(z3.Not(props.has(nm)))
        log = lambda st, *x: st.g(set=st.ghost["set"] + (x,))

        def fails(st, ctx):
            s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
            ctx.sink.append((s.g(seterr=e), e))
        def default(E, st, ca, ctx, fn):
            st = log(st, "evented", *ca.pos)
            fails(st, ctx)
            return [(st, None)]
        E.stubs[f"{EM}:EventedModel._setattr_default"] = default
        E.schema[("property", "fset")] = lambda E, st, v, ctx: [(st, Partial(Ext("prop.fset"), [v], {}))]

        def fset(E, st, ca, ctx, fn):
            st = log(st, "property", *ca.pos)
            fails(st, ctx)
            return [(st, None)]
        E.stubs["prop.fset"] = fset

        def base(kind):
            def h(E, st, ca, ctx, fn):
                a = [x for x in ca.pos if not (isinstance(x, Ref) and x.oid == M.obj.oid)]
                st = log(st, kind, M.obj, *a)
                fails(st, ctx)
                return [(st, None)]
            return h
        E.stubs["builtins.object.__setattr__"] = base("object")
        E.stubs["pydantic.BaseModel.__setattr__"] = base("pydantic")
        for kind, s, v in U.run(st, q, [M.obj, name, value]):
            sets = s.ghost["set"]
            U.oblige(f"{case}: exactly one assignment is made", s, z3.BoolVal(len(sets) == 1))
            if len(sets) != 1:
                continue
            a = sets[0]
            if case == "signal":
                U.oblige("a name with a signal is assigned with emission", s, z3.And(z3.BoolVal(a[0] == "evented" and a[1] == M.obj), lib.same(E, s, a[2], name), lib.same(E, s, a[3], value)))
            elif a[0] == "property":
                U.oblige(f"{case}: the setter of that property is called with the value", s, z3.And(props.has(nm), a[1].t == props.val(nm).t, z3.BoolVal(a[2] == M.obj), lib.same(E, s, a[3], value)))
            else:
                U.oblige(f"{case}: other attributes are set as in pydantic", s, z3.And(z3.Not(props.has(nm)), z3.BoolVal(a[0] == ("object" if case == "_events" else "pydantic")), lib.same(E, s, a[2], name), lib.same(E, s, a[3], value)))
            U.oblige(f"{case}: an error of the assignment is raised, and nothing else", s, z3.BoolVal((kind == "raise") == ("seterr" in s.ghost) and (kind == "ret" or v == s.ghost["seterr"])))
            U.frame(case, st, s, TOUCHED | {("g", "seterr")})
        U.must_fail("satisfiable", st, z3.BoolVal(False))


@unit("C19", "update: inside one pause of the group's events, every key in turn is assigned its value, or the model in that field is updated recursively",
      ["EventedModel.update"], timeout=120)
def u_update(U):
    E = U.E
    q = f"{EM}:EventedModel.update"
    for case in ("dict", "model", "other"):
        st = St()
        M = Model(U, st)
        st = M.st
        st, d = lib.fresh_dict(st, "values", None, "str")
        st, dr = E.alloc(st, Ext("builtins.dict"), data=d, kind="dict")
        recurse = fresh_bool("recurse")
        ISM = lib.inst_pred(f"{EM}:EventedModel")
        ISB, ISD = lib.inst_pred("pydantic.BaseModel"), lib.inst_pred("builtins.dict")
        FIELD = fresh_fun("field_then", I, V, V)
        n, keys = d.n, d.keys
        kt = lambda m: to_term(keys.at(m))
        vt = lambda m: to_term(d.val(kt(m)))
        nested = lambda m: z3.And(recurse, ISM(FIELD(m, kt(m))), z3.Or(ISB(vt(m)), ISD(vt(m))))
        target = lambda m: z3.If(nested(m), FIELD(m, kt(m)), kt(m))
        EMPTY = Seq.of(())
        st = st.g(paused=0, resumed=0, log_t=EMPTY, log_v=EMPTY, log_n=EMPTY)
        E.schema[("getattr", "dynamic")] = lambda E, st, o, name, default, ctx: [(st, SV(FIELD(st.ghost["log_t"].zn(), to_term(name)), "field"))] if o == M.obj else (_ for _ in ()).throw(Unsupported("attribute of something else"))

        def write(E, st, ctx, t, v, kind):
            E.obligation("changes are made while the group's events are paused", st, z3.BoolVal(st.ghost["paused"] - st.ghost["resumed"] == 1))
            g = st.ghost
            st = st.g(log_t=seq_append(g["log_t"], SV(t, "atom")), log_v=seq_append(g["log_v"], v), log_n=seq_append(g["log_n"], SBool(z3.BoolVal(kind))))
            s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
            ctx.sink.append((s.g(seterr=e), e))
            return st
        def setat(E, st, o, name, v, ctx):
            E.obligation("the model itself is assigned to", st, z3.BoolVal(o == M.obj))
            return [(write(E, st, ctx, to_term(name), v, False), None)]
        E.schema[("setattr", "dynamic")] = setat
        E.schema[("field", "update")] = lambda E, st, v, ctx: [(st, Partial(Ext("field.update"), [v], {}))]

        def sub(E, st, ca, ctx, fn):
            a = dict(zip(("self", "values", "recurse"), ca.pos), **ca.kw)
            E.obligation("the nested update is as deep as this one", st, lib.same(E, st, a.get("recurse", True), SBool(recurse)))
            return [(write(E, st, ctx, a["self"].t, a["values"], True), None)]
        E.stubs["field.update"] = sub
        E.schema[("relay", "paused")] = lambda E, st, v, ctx: [(st, Partial(Ext("relay.paused"), [v], {}))]

        def paused(E, st, ca, ctx, fn):
            E.obligation("the events are not reduced", st, z3.BoolVal(len(ca.pos) == 1 and not ca.kw))
            return [(st, SV(ca.pos[0].t, "pausing"))]
        E.stubs["relay.paused"] = paused

        def with_(E, st, cm, body, ctx):
            mark = len(ctx.sink)
            fin = lambda s: s.g(resumed=s.ghost["resumed"] + 1)
            outs = [(k, fin(s), v) for k, s, v in body(st.g(paused=st.ghost["paused"] + 1), None)]
            ctx.sink[mark:] = [(fin(s), e) for s, e in ctx.sink[mark:]]
            return outs
        E.schema[("pausing", "with")] = with_
        E.loop_specs["*"] = lambda L: {"cands": [lambda m: Seq(zlen(m), lambda j: SV(target(zlen(j)), "atom")), lambda m: Seq(zlen(m), lambda j: SV(vt(zlen(j)))), lambda m: Seq(zlen(m), lambda j: SBool(nested(zlen(j))))]}
        mv = SV(fresh_v("given"), "given")
        E.schema[("isinstance", "pydantic.BaseModel")] = lambda E, st, v: (case == "model") if isinstance(v, SV) and v.cls == "given" else False if v == dr else None
        E.schema[("given", "isinstance")] = lambda E, st, v, nm: False
        E.stubs[f"{EM}:_model_dump"] = lambda E, st, ca, ctx, fn: (E.obligation("the model given is dumped", st, lib.same(E, st, ca.pos[0], mv)), [(st, dr)])[1]
        given = dr if case == "dict" else mv
        for kind, s, v in U.run(st, q, [M.obj, given], {"recurse": SBool(recurse)}):
            g = s.ghost
            lt, lv, ln = g["log_t"], g["log_v"], g["log_n"]
            if case == "other":
                U.oblige("anything but a mapping or model is refused before anything changes", s, z3.And(z3.BoolVal(kind == "raise"), U.exc_is(s, v, "TypeError"), lt.zn() == 0))
                continue
            i = fresh_int("i")
            U.oblige(f"{case}: the events are paused once, and resumed", s, z3.BoolVal(g["paused"] == 1 and g["resumed"] == 1))
            if kind == "ret":
                U.oblige(f"{case}: all keys are dealt with", s, z3.And(lt.zn() == n, z3.BoolVal("seterr" not in g)))
            else:
                U.oblige(f"{case}: only an error of an assignment or nested update is raised", s, z3.BoolVal(v == g.get("seterr")))
            inb = z3.And(0 <= i, i < lt.zn())
            U.oblige(f"{case}: each key is assigned the value given for it, or its model updated with it", s, z3.Implies(inb, z3.And(lt.zn() <= n, lv.zn() == lt.zn(), to_term(lt.at(i)) == target(i), to_term(lv.at(i)) == vt(i), zb(ln.at(i)) == nested(i))))
            U.frame(f"{case}: update", st, s, TOUCHED | {("g", k) for k in ("paused", "resumed", "log_t", "log_v", "log_n", "seterr")})
        U.must_fail("satisfiable", st.assume(n > 1), z3.BoolVal(False))


@unit("C19", "reset: every settable field is set to the value given, models in fields of the same type are reset to the values of the given one",
      ["EventedModel.reset", "EventedModel._reset_to"], timeout=120)
def u_reset(U):
    E = U.E
    q = f"{EM}:EventedModel._reset_to"
    st = St()
    M = Model(U, st)
    st = M.st
    st, d = lib.fresh_dict(st, "values", None, "str")
    st, dr = E.alloc(st, Ext("builtins.dict"), data=d, kind="dict")
    ISM = lib.inst_pred(f"{EM}:EventedModel")
    FIELD = fresh_fun("field_then", I, V, V)
    HASF = fresh_fun("has_field_then", I, V, B)
    n, keys = d.n, d.keys
    kt = lambda m: to_term(keys.at(m))
    vt = lambda m: to_term(d.val(kt(m)))
    frozen, FROZEN = fresh_bool("config_frozen"), fresh_fun("frozen_field", V, B)
    CLS = lib.attr_fun("__class__")
    R, POS = fresh_fun("rank", I, I), fresh_fun("at_step", I, I)
    field = lambda m: z3.If(HASF(R(m), kt(m)), FIELD(R(m), kt(m)), V.none)
    TYPE = fresh_fun("type_of", V, V)
    nested = lambda m: z3.And(ISM(vt(m)), TYPE(field(m)) == TYPE(vt(m)))
    does = lambda m: z3.Or(nested(m), z3.And(z3.Not(frozen), z3.Not(FROZEN(kt(m)))))
    target = lambda m: z3.If(nested(m), field(m), kt(m))
    EMPTY = Seq.of(())
    E.stubs["builtins.type"] = lambda E, st, ca, ctx, fn: [(st, SV(TYPE(to_term(ca.pos[0])), "type"))]
    st = st.g(log_t=EMPTY, log_v=EMPTY, log_n=EMPTY)
    FIELDS, ATTR = fresh_fun("is_field", V, V, B), fresh_fun("attr", V, V, V)

    def get(E, st, o, name, default, ctx):
        if o == M.obj:
            k = st.ghost["log_t"].zn()
            nm = to_term(name)
            return [(s, SV(FIELD(k, nm), "field") if b else default) for s, b in E.split(st, HASF(k, nm))] if default is not UNBOUND else [(st, SV(FIELD(k, nm), "field"))]
        return [(st, SV(ATTR(to_term(o), to_term(name))))]
    E.schema[("getattr", "dynamic")] = get

    def write(E, st, ctx, t, v, kind):
        g = st.ghost
        st = st.g(log_t=seq_append(g["log_t"], SV(t, "atom")), log_v=seq_append(g["log_v"], v), log_n=seq_append(g["log_n"], SBool(z3.BoolVal(kind))))
        s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
        ctx.sink.append((s.g(seterr=e), e))
        return st

    def setat(E, st, o, name, v, ctx):
        E.obligation("the model itself is assigned to", st, z3.BoolVal(o == M.obj))
        return [(write(E, st, ctx, to_term(name), v, False), None)]
    E.schema[("setattr", "dynamic")] = setat
    E.schema[("field", "_reset_to")] = lambda E, st, v, ctx: [(st, Partial(Ext("field.reset_to"), [v], {}))]

    def sub(E, st, ca, ctx, fn):
        a = dict(zip(("self", "values"), ca.pos), **ca.kw)
        dd = lib.dict_to_s(E, st.d(a["values"]))
        x, src = fresh_v("x"), st.ghost["dumped"]
        E.obligation("the nested reset is to the fields of the model given, and their values", st, z3.And(dd.has(x) == FIELDS(src, x), z3.Implies(dd.has(x), to_term(dd.val(x)) == ATTR(src, x))))
        return [(write(E, st, ctx, a["self"].t, SV(src), True), None)]
    E.stubs["field.reset_to"] = sub
    cfg = SV(fresh_v("config"), "config")
    E.schema[("config", "get")] = lambda E, st, v, ctx: [(st, Partial(Ext("config.get"), [v], {}))]

    def cfgget(E, st, ca, ctx, fn):
        if ca.pos[1] != "frozen":
            raise Unsupported("another setting")
        return [(st, SBool(frozen))]
    E.stubs["config.get"] = cfgget
    E.stubs[f"{EM}:_get_config"] = lambda E, st, ca, ctx, fn: [(st, cfg)]

    def fields(E, st, ca, ctx, fn):
        o = ca.pos[0]
        if o == M.obj:
            return [(st, SV(fresh_v("fields"), "fields"))]
        t = to_term(o)
        nf = fresh_int("n_fields")
        st, f, idx = lib.keys_order(st, lambda x: FIELDS(t, x), nf, "fld")
        st, r = E.alloc(st.g(dumped=t), Ext("builtins.dict"), data=DictS(lambda x: FIELDS(t, x), lambda x: SV(fresh_v("info")), nf, Seq(nf, lambda k: SV(f(zlen(k)), "str")), lambda x: idx(x)), kind="dict")
        return [(st, r)]
    E.stubs[f"{EM}:_get_fields"] = fields
    E.schema[("fields", "[]")] = lambda E, st, o, k, ctx: [(st, SV(to_term(k), "info"))]
    E.schema[("info", "frozen")] = lambda E, st, v, ctx: [(st, SBool(FROZEN(v.t)))]
    t = z3.Const("t_res", V)
    j = z3.Int("j_res")

    def spec(L):
        if isinstance(L.seq.at(fresh_int("pr")), tuple):
            facts = lambda m: [R(zlen(m) + 1) == R(zlen(m)) + z3.If(does(zlen(m)), 1, 0), z3.Implies(does(zlen(m)), POS(R(zlen(m))) == zlen(m))]
            inv = lambda s, m: [("count", z3.And(R(zlen(m)) >= 0, R(zlen(m)) <= zlen(m))), ("steps", fa([j], z3.Implies(z3.And(0 <= j, j < R(zlen(m))), z3.And(POS(j) < zlen(m), POS(j) >= 0, R(POS(j)) == j, does(POS(j)))), POS(j))),
                                ("every settable name so far is dealt with", fa([j], z3.Implies(z3.And(0 <= j, j < zlen(m), does(j)), z3.And(R(j) < R(zlen(m)), R(j) >= 0, POS(R(j)) == j)), R(j)))]
            return {"cands": [lambda m: Seq(R(zlen(m)), lambda j: SV(target(POS(zlen(j))), "atom")), lambda m: Seq(R(zlen(m)), lambda j: SV(vt(POS(zlen(j))))),
                              lambda m: Seq(R(zlen(m)), lambda j: SBool(nested(POS(zlen(j)))))], "facts": facts, "inv": inv}
        key = lambda m: to_term(L.seq.at(m))
        src = L.st0.ghost.get("dumped", V.none)
        rec = lib.DictRec(DictS(lambda t: z3.BoolVal(False), lambda t: SV(V.none), z3.IntVal(0)), lambda dd, m: lib.dict_set(E, None, dd, SV(key(m), "str"), SV(ATTR(src, key(m)))))
        return {"cands": [rec.at], "facts": rec.facts, "base": rec.base,
                "inv": lambda s, m: [("only fields, with their values", fa([t], z3.Implies(rec.at(m).has(t), z3.And(FIELDS(src, t), to_term(rec.at(m).val(t)) == ATTR(src, t))), rec.at(m).has(t))),
                                     ("all fields so far", fa([j], z3.Implies(z3.And(0 <= j, j < zlen(m)), rec.at(m).has(key(j))), key(j)))]}
    E.loop_specs["*"] = spec
    st = st.assume(R(0) == 0, fa([t], z3.Implies(ISM(t), TYPE(t) != TYPE(V.none)), TYPE(t)))
    for kind, s, v in U.run(st, q, [M.obj, dr]):
        g = s.ghost
        lt, lv, ln = g["log_t"], g["log_v"], g["log_n"]
        i = fresh_int("i")
        if kind == "ret":
            U.oblige("all names that can be set are dealt with, each once", s, z3.And(lt.zn() == R(n), z3.BoolVal("seterr" not in g)))
            U.oblige("a name that can be set is dealt with", s, z3.Implies(z3.And(0 <= i, i < n, does(i)), z3.And(0 <= R(i), R(i) < lt.zn(), POS(R(i)) == i)))
        else:
            U.oblige("only an error of an assignment or nested reset is raised", s, z3.BoolVal(v == g.get("seterr")))
        inb = z3.And(0 <= i, i < lt.zn())
        U.oblige("each is assigned the value given for it, or its model reset to the model given", s, z3.Implies(inb, z3.And(lv.zn() == lt.zn(), to_term(lt.at(i)) == target(POS(i)), to_term(lv.at(i)) == vt(POS(i)), zb(ln.at(i)) == nested(POS(i)))))
        U.frame("reset", st, s, TOUCHED | {("g", k) for k in ("dumped", "log_t", "log_v", "log_n", "seterr")})
    U.must_fail("satisfiable", st.assume(n > 1), z3.BoolVal(False))
    # reset() is _reset_to(defaults)
    dflt = SV(fresh_v("defaults"))
    E.stubs[f"{EM}:_get_defaults"] = lambda E, st, ca, ctx, fn: (E.obligation("the defaults are the model's", st, z3.BoolVal(ca.pos[0] == M.obj)), [(st, dflt)])[1]
    E.stubs[q] = lambda E, st, ca, ctx, fn: (E.obligation("reset sets the defaults", st, z3.And(z3.BoolVal(ca.pos[0] == M.obj), lib.same(E, st, ca.pos[1], dflt))), [(st.g(set=st.ghost["set"] + (1,)), None)])[1]
    for kind, s, v in U.run(M.st, f"{EM}:EventedModel.reset", [M.obj]):
        U.oblige("reset resets once", s, z3.BoolVal(kind == "ret" and len(s.ghost["set"]) == 1))


@unit("C19", "equality: with another model field by field, by the class's operators; with anything else as its mapping of values", ["EventedModel.__eq__"])
def u_eq(U):
    E = U.E
    q = f"{EM}:EventedModel.__eq__"
    st = St()
    M = Model(U, st)
    st = M.st
    st, d = lib.fresh_dict(st, "eq_operators", None, "str")
    st, dr = E.alloc(st, Ext("builtins.dict"), data=d, kind="dict")
    st = st.setf(M.obj, "__eq_operators__", dr)
    other = SV(fresh_v("other"), "other")
    ismodel = fresh_bool("other_is_model")
    E.schema[("other", "isinstance")] = lambda E, st, v, nm: ismodel
    HAS, ATTR = z3.Function("has_attribute", V, V, B), z3.Function("attribute", V, V, V)
    own = to_term(M.obj)
    ok = lambda t: z3.And(HAS(own, t), HAS(other.t, t), M.EQ(t, ATTR(own, t), ATTR(other.t, t)))
    E.schema[("hasattr", "dynamic")] = lambda E, st, o, name, ctx: [(st, SBool(HAS(to_term(o), to_term(name))))]
    E.schema[("getattr", "dynamic")] = lambda E, st, o, name, default, ctx: (E.obligation("only attributes there are are read", st, HAS(to_term(o), to_term(name))), [(st, SV(ATTR(to_term(o), to_term(name))))])[1]
    dump = SV(fresh_v("dump"), "dump")
    E.stubs[f"{EM}:_model_dump"] = lambda E, st, ca, ctx, fn: (E.obligation("the model itself is dumped", st, z3.BoolVal(ca.pos[0] == M.obj)), [(st, dump)])[1]
    j = z3.Int("j_eq")
    kt = lambda m: to_term(d.keys.at(m))
    E.loop_specs["*"] = lambda L: {"inv": lambda s, m: [("all fields so far are equal", fa([j], z3.Implies(z3.And(0 <= j, j < zlen(m)), ok(kt(j))), kt(j)))]}
    x = fresh_v("x")
    for kind, s, v in U.run(st, q, [M.obj, other]):
        U.oblige("comparing does not fail", s, z3.BoolVal(kind == "ret"))
        if kind != "ret":
            continue
        r = zb(v) if isinstance(v, (SBool, bool)) else None
        if r is None:
            raise Unsupported("not a bool")
        U.oblige("equal models agree in all fields", s, z3.Implies(z3.And(ismodel, r, d.has(x)), ok(x)))
        U.oblige("models that agree in all fields are equal", s, z3.Implies(z3.And(ismodel, z3.Not(r)), z3.Exists([j], z3.And(0 <= j, j < d.n, z3.Not(ok(kt(j)))))))
        [(s2, c)] = E.compare(s, "Eq", dump, other, U.ctx(EM))
        U.oblige("compared with anything else as the mapping of its values", s, z3.Implies(z3.Not(ismodel), r == zb(c)))
        U.frame("equality", st, s, set())
    U.must_fail("satisfiable", st.assume(ismodel), z3.BoolVal(False))


@unit("C21", "a copy of an evented model has its own group of signals, bound to it, and its own record of changes; the original keeps its own",
      ["EventedModel.__copy__", "EventedModel.__deepcopy__", "EventedModel.copy", "EventedModel._own_events"])
def u_model_copy(U):
    E = U.E
    for meth, args, kw in (("__copy__", [], {}), ("__deepcopy__", [None], {}), ("__deepcopy__", [], {}), ("copy", [], {"deep": True}), ("copy", [], {})):
        st = St()
        M = Model(U, st)
        st = M.st
        # what pydantic gives: another instance that may share everything with the original
        shared = dict(st.obj(M.obj).fields)
        st, cp = E.alloc(st, st.obj(M.obj).cls, shared)
        E.stubs[f"{EM}:EventedModel.__setattr__"] = lambda E, st, ca, ctx, fn: [(st.setf(ca.pos[0], ca.pos[1], ca.pos[2]), None)]

        def base(E, st, ca, ctx, fn):
            E.obligation("the model itself is copied, as asked", st, z3.And(z3.BoolVal(ca.pos[0] == M.obj and len(ca.pos) <= 2 and set(ca.kw) == set(kw)), *[lib.same(E, st, ca.kw[k], kw[k]) for k in kw if k in ca.kw],
                         *([lib.same(E, st, (list(ca.pos[1:]) + [None])[0], (args + [None])[0])] if not ca.kw else [])))
            return [(st.g(copied=st.ghost.get("copied", 0) + 1), cp)]
        for m in ("__copy__", "__deepcopy__", "copy"):
            E.stubs["pydantic.BaseModel." + m] = base if m == meth else lambda E, st, ca, ctx, fn: [(st.g(copied=99), cp)]
        st = st.setf(M.obj, "__signal_group__", SV(fresh_v("group_class"), "groupclass"))
        st = st.setf(cp, "__signal_group__", st.f(M.obj, "__signal_group__"))

        def make(E, st, f, ca, ctx):
            E.obligation("the group is bound to the copy", st, z3.BoolVal(len(ca.pos) == 1 and ca.pos[0] == cp and not ca.kw))
            g = fresh_v("new_group")
            return [(st.assume(g != M.events.t).g(group=g), SV(g, "events"))]
        E.schema[("groupclass", "()")] = make
        for kind, s, v in U.run(st, f"{EM}:EventedModel.{meth}", [M.obj] + args, kw):
            U.oblige(f"{meth}: gives the copy", s, z3.BoolVal(kind == "ret" and v == cp and s.ghost.get("copied") == 1))
            if kind != "ret":
                continue
            f = s.obj(cp).fields
            U.oblige(f"{meth}: the copy has its own group", s, z3.BoolVal("group" in s.ghost) if "group" not in s.ghost else to_term(f["_events"]) == s.ghost["group"])
            q, p = f["_changes_queue"], f["_primary_changes"]
            fresh = isinstance(q, Ref) and isinstance(p, Ref) and q.oid not in st.heap and p.oid not in st.heap
            U.oblige(f"{meth}: nothing is queued for the copy, in a record of its own, and nothing is delayed", s, z3.And(z3.BoolVal(fresh), *([zlen(lib.dict_to_s(E, s.d(q)).n) == 0, zlen(lib.set_to_s(s.d(p)).n) == 0] if fresh else []), zt(f["_delay_check_semaphore"]) == 0))
            U.frame(meth, st, s, TOUCHED | {("g", "copied"), ("g", "group")} | {("f", cp.oid, k) for k in PRIVATE})
    U.must_fail("satisfiable", st, z3.BoolVal(False))


def u_metaclass(U, reem, allow, evented_base, base_allow):
    E = U.E
    for _k in ("pydantic_main.ModelMetaclass", "pydantic._internal._model_construction.ModelMetaclass"):
        lib.EXT_BASE[(_k, "__new__")] = "pydantic.ModelMetaclass.__new__"
    SGB = E.loader.cls(GRP, "SignalGroup")
    for _ in (0,):
        st = St()
        cls = SV(fresh_v("cls"), "emcls")
        A = {n: SV(fresh_v("annotation_" + n)) for n in "ab"}
        F = {n: SV(fresh_v("field_" + n), "fieldinfo") for n in "ab"}
        FROZEN = {n: SBool(fresh_bool("frozen_" + n)) for n in "ab"}
        if allow:
            FROZEN["b"] = False
        B1, B2 = SV(fresh_v("base1"), "basecls"), SV(fresh_v("base2"), "basecls")
        attrs = {n: SV(fresh_v("attr_" + n), "nsattr") for n in ("p", "a")}
        wrapped = {n: SV(fresh_v("wrapped_" + n), "nsattr") for n in ("p", "a")}
        ISPROXY, ISPROP, FSET = fresh_fun("is_proxy", V, B), fresh_fun("is_property", V, B), fresh_fun("fset", V, V)
        basep = {n: SV(fresh_v("base_prop_" + n), "nsattr") for n in ("q", "p")}
        st = st.assume(*[lib.is_object(x.t) for x in [cls, B1, B2, *A.values(), *F.values(), *attrs.values(), *wrapped.values(), *basep.values()]], B1.t != B2.t, cls.t != B1.t)
        mk = lambda st, items: E.alloc(st, Ext("builtins.dict"), data=DictC(items), kind="dict")
        st, ns = mk(st, {**attrs})
        st, fields = mk(st, {n: F[n] for n in "ab"})
        MODE = {n: SV(fresh_v("mode_" + n), "str") for n in ("any", "a", "q")}
        cfg = {}
        if reem == "str":
            cfg["reemission"] = MODE["any"]
            st = st.assume(V.is_vstr(MODE["any"].t))
        elif reem == "map":
            st, mp = mk(st, {"a": MODE["a"], "q": MODE["q"]})
            st = st.assume(V.is_vstr(MODE["a"].t), V.is_vstr(MODE["q"].t))
            cfg["reemission"] = mp
        if allow is not None:
            cfg["allow_property_setters"] = allow
        st, cfgr = mk(st, cfg)
        st, bcfg = mk(st, {"allow_property_setters": True} if base_allow else {})
        st, b1setters = mk(st, dict(basep))
        st, b2setters = mk(st, {"q": SV(fresh_v("q2"), "nsattr")})
        b2q = st.d(b2setters).d["q"]
        st = st.assume(lib.is_object(b2q.t))
        inh = {"_setattr_default": SV(fresh_v("inherited_default")), "__bases__": (B1, B2)}
        hasmethods = fresh_bool("is_subclass_of_EventedModel") if not allow else z3.BoolVal(True)
        ND, WD = SV(fresh_v("no_dependents")), SV(fresh_v("with_dependents"))
        st = st.assume(ND.t != WD.t, inh["_setattr_default"].t != ND.t, inh["_setattr_default"].t != WD.t)
        own = {}
        NAMES = {"__eq_operators__", "__property_setters__", "__field_dependents__", "__signal_group__", "_setattr_default", "__bases__"}
        look = class_attrs(U, "emcls", own, inh, NAMES)
        st = st.g(own=own, sigs=(), made=())
        for nm, v in (("_setattr_no_dependants", ND), ("_setattr_with_dependents", WD)):
            E.schema[("emcls", nm)] = lambda E, st, o, ctx, v=v: [(st, v)]
        hm = lambda E, st, o, ctx: [(s, b) for s, b in E.split(st, hasmethods)]
        E.schema[("hasattr", "_setattr_no_dependants")] = E.schema[("hasattr", "_setattr_with_dependents")] = hm

        def bset(E, st, o, ctx):
            out = []
            for s, b in E.split(st, o.t == B1.t):
                out.append((s, b1setters if b else b2setters))
            return out
        E.schema[("basecls", "__property_setters__")] = bset
        oldhas = E.schema[("hasattr", "__property_setters__")]
        E.schema[("hasattr", "__property_setters__")] = lambda E, st, o, ctx: [(st, bool(evented_base))] if isinstance(o, SV) and o.cls == "basecls" else oldhas(E, st, o, ctx)
        E.schema[("fieldinfo", "annotation")] = lambda E, st, o, ctx: [(s, A["a"] if b else A["b"]) for s, b in E.split(st, o.t == F["a"].t)]
        E.schema[("fieldinfo", "frozen")] = lambda E, st, o, ctx: [(s, FROZEN["a"] if b else FROZEN["b"]) for s, b in E.split(st, o.t == F["a"].t)]
        E.schema[("nsattr", "wrapped")] = lambda E, st, o, ctx: [(s, wrapped[n]) for n in attrs for s, b in E.split(st, o.t == attrs[n].t) if b]
        E.schema[("nsattr", "fset")] = lambda E, st, o, ctx: [(st, SV(FSET(o.t)))]
        st = st.assume(z3.Distinct(*[x.t for x in [*attrs.values(), *wrapped.values()]]), F["a"].t != F["b"].t)
        E.schema[("isinstance", "builtins.property")] = lambda E, st, v: ISPROP(v.t) if isinstance(v, SV) and v.cls == "nsattr" else None
        E.stubs[f"{EM}:_get_fields"] = lambda E, st, ca, ctx, fn: (E.obligation("the fields are those of the new class", st, to_term(ca.pos[0]) == cls.t), [(st, fields)])[1]

        def getcfg(E, st, ca, ctx, fn):
            if ca.pos[0] is cls:
                return [(st, cfgr)]
            out = []
            for s, b in E.split(st, to_term(ca.pos[0]) == B1.t):
                if b and evented_base:
                    out.append((s, bcfg))
                elif b:
                    s2, r = mk(s, {})
                    out.append((s2, r))
                else:      # no model: has no configuration
                    s2, e = E.new_exc(s, exc_cls(E, "builtins.AttributeError"), ())
                    ctx.sink.append((s2, e))
            return out
        E.stubs[f"{EM}:_get_config"] = getcfg
        E.stubs[f"{EM}:_is_pydantic_descriptor_proxy"] = lambda E, st, ca, ctx, fn: [(st, SBool(z3.And(ISPROXY(to_term(ca.pos[0]))))) if ca.pos[0] is attrs["p"] else (st, False)]
        PICK, VALID, NORM = fresh_fun("picked", V, V), fresh_fun("valid_mode", V, B), fresh_fun("normalised", V, V)
        E.stubs[f"{GD_}:_pick_equality_operator"] = lambda E, st, ca, ctx, fn: [(st, SV(PICK(to_term(ca.pos[0])), "eqop"))]
        E.stubs[f"{EM}:_pick_equality_operator"] = E.stubs[f"{GD_}:_pick_equality_operator"]

        def validate(E, st, ca, ctx, fn):
            out = []
            for s, b in E.split(st, VALID(to_term(ca.pos[0]))):
                if b:
                    out.append((s, SV(NORM(to_term(ca.pos[0])), "str")))
                else:
                    s2, e = E.new_exc(s, exc_cls(E, "builtins.ValueError"), ())
                    ctx.sink.append((s2, e))
            return out
        E.stubs[f"{SIG}:ReemissionMode.validate"] = validate
        st, depd = lib.fresh_dict(st, "deps", None, "str")
        st, depr = E.alloc(st, Ext("builtins.dict"), data=depd, kind="dict")

        def deps(E, st, ca, ctx, fn):
            o = st.ghost["own"]
            E.obligation("the dependents are computed for this class, with its configuration and fields, its properties being known by then", st,
                         z3.BoolVal(ca.pos == [cls, cfgr, fields] and "__property_setters__" in o))
            s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
            ctx.sink.append((s.g(deperr=e), e))
            return [(st, depr)]
        E.stubs[f"{EM}:_get_field_dependents"] = deps

        def mksignal(E, st, ca, ctx, fn):
            r = SV(fresh_v("signal"), "sigdecl")
            return [(st.assume(lib.is_object(r.t), *[r.t != o.t for o, _ in st.ghost["sigs"]]).g(sigs=st.ghost["sigs"] + ((r, ca),)), r)]
        E.stubs[f"{SIG}:Signal"] = mksignal
        tyfn = lib.FUNCS["builtins.type"]

        def mktype(E, st, ca, ctx, fn):
            if len(ca.pos) == 1:
                return tyfn(E, st, ca, ctx)
            r = SV(fresh_v("newgroup"), "groupcls")
            return [(st.g(made=st.ghost["made"] + ((ca, r),)), r)]
        E.stubs["builtins.type"] = mktype

        def base_new(E, st, ca, ctx, fn):
            E.obligation("the class is made by pydantic from what was given", st, z3.BoolVal(tuple(ca.pos[-3:]) == (NAME, (B1, B2), ns) and lib.same(E, st, ca.pos[-4], mcs) is not False))
            s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
            ctx.sink.append((s.g(deperr=e), e))
            return [(st, cls)]
        E.stubs["pydantic.ModelMetaclass.__new__"] = base_new
        E.schema[("glob", f"{EM}.PYDANTIC_V1")] = lambda E, st: (st, False)
        E.assumptions.add("pydantic is version 2 (the one installed): code for version 1 is not checked")
        E.schema[("sys.modules", "in")] = lambda E, st, c, x, ctx: [(st, False)]
        E.assumptions.add("PySide2 is not loaded (psygnal then swaps a function of pydantic while a model class is made)")
        NAME = SV(fresh_v("name"), "str")
        what = f"reemission {reem}, setters {allow}{', base with properties' if evented_base else ''}{' allowed' if base_allow else ''}"
        mcs = E.loader.cls(EM, "EventedMetaclass")
        badmode = {"none": z3.BoolVal(False), "str": z3.Not(VALID(MODE["any"].t)), "map": z3.Or(z3.Not(VALID(MODE["a"].t)), z3.Not(VALID(MODE["q"].t)))}[reem]
        clash = z3.BoolVal(allow is not True and bool(base_allow))
        eff = {"p": z3.If(ISPROXY(attrs["p"].t), wrapped["p"].t, attrs["p"].t), "a": attrs["a"].t}
        setter = {n: z3.And(ISPROP(eff[n]), FSET(eff[n]) != V.none) for n in attrs}
        LATEST = to_term("latest-only")
        mode = {"none": lambda n: LATEST, "str": lambda n: NORM(MODE["any"].t), "map": lambda n: NORM(MODE[n].t) if n in ("a", "q") else LATEST}[reem]
        for kind, s, v in U.run(st, f"{EM}:EventedMetaclass.__new__", [mcs, NAME, (B1, B2), ns], {}):
            if kind == "raise":
                U.oblige(f"{what}: refused (ValueError) only for modes that are none, and setters disallowed that a base allows", s,
                         z3.Or(z3.And(z3.BoolVal(U.exc_is(s, v, "ValueError")), z3.Or(badmode, clash)), z3.BoolVal(v == s.ghost.get("deperr"))))
                continue
            U.oblige(f"{what}: accepted only with valid modes, and setters not disallowed against a base", s, z3.And(z3.Not(badmode), z3.Not(clash), lib.same(E, s, v, cls)))
            o = s.ghost["own"]
            if any(not isinstance(o.get(k), Ref) for k in ("__eq_operators__", "__property_setters__")):
                raise Unsupported("class attributes in another form")
            x = fresh_v("x")
            eq = lib.dict_to_s(E, s.d(o["__eq_operators__"]))
            U.oblige(f"{what}: each field has the operator for its type", s, z3.And(eq.has(x) == z3.Or(x == to_term("a"), x == to_term("b")), *[to_term(eq.val(to_term(n))) == PICK(A[n].t) for n in "ab"]))
            ps = lib.dict_to_s(E, s.d(o["__property_setters__"]))
            if allow:
                binh = {"q": basep["q"], "p": basep["p"]} if evented_base else {}
                hasp = {n: z3.Or(z3.BoolVal(n in binh), setter.get(n, z3.BoolVal(False))) for n in ("p", "q", "a")}
                valp = {n: z3.If(setter[n], eff[n], binh[n].t if n in binh else V.none) if n in setter else binh[n].t if n in binh else V.none for n in ("p", "q", "a")}
            else:
                hasp = {n: z3.BoolVal(False) for n in ("p", "q", "a")}
                valp = {}
            U.oblige(f"{what}: the settable properties are those of the bases and of the class itself, the class's own before those of its bases, the first base's before the others'", s, z3.And(
                ps.has(x) == z3.Or(*[z3.And(x == to_term(n), c) for n, c in hasp.items()]), *[z3.Implies(hasp[n], to_term(ps.val(to_term(n))) == t) for n, t in valp.items()]))
            m = s.ghost["made"]
            ok = len(m) == 1 and len(m[0][0].pos) == 3 and m[0][0].pos[1] == (SGB,) and isinstance(m[0][0].pos[2], Ref) and not m[0][0].kw
            U.oblige(f"{what}: one group class is made, and kept as the class's", s, z3.And(z3.BoolVal(ok), lib.same(E, s, o.get("__signal_group__"), m[0][1]) if ok else z3.BoolVal(False)))
            if not ok:
                continue
            d = lib.dict_to_s(E, s.d(m[0][0].pos[2]))
            hasf = {n: z3.Not(zb(FROZEN[n])) for n in "ab"}
            allhas = {n: z3.Or(hasf.get(n, z3.BoolVal(False)), hasp.get(n, z3.BoolVal(False))) for n in ("a", "b", "p", "q")}
            U.oblige(f"{what}: a signal for each field that is not frozen and each settable property, none else", s, d.has(x) == z3.Or(*[z3.And(x == to_term(n), c) for n, c in allhas.items()]))
            OBJ = to_term(Ext("builtins.object"))
            for n, c in allhas.items():
                ty = z3.If(hasp[n], OBJ, A[n].t) if n == "a" else A[n].t if n == "b" else OBJ
                good = []
                for r, ca in s.ghost["sigs"]:
                    rm = ca.kw.get("reemission")
                    if len(ca.pos) != 1 or set(ca.kw) - {"reemission"}:
                        raise Unsupported("signals declared in another form")
                    good.append(z3.And(to_term(d.val(to_term(n))) == r.t, to_term(ca.pos[0]) == ty, (to_term(rm) if rm is not None else LATEST) == mode(n)))
                U.oblige(f"{what}: the signal is declared with the field's type and the reemission mode configured for it", s, z3.Implies(c, z3.Or(*good) if good else z3.BoolVal(False)))
            U.oblige(f"{what}: signals are not shared", s, z3.And(*[z3.Implies(z3.And(allhas[i], allhas[j]), to_term(d.val(to_term(i))) != to_term(d.val(to_term(j)))) for i, j in itertools.combinations(allhas, 2)]))
            U.oblige(f"{what}: the dependents are kept", s, z3.BoolVal(o.get("__field_dependents__") == depr))
            df = look(s, "_setattr_default")
            U.oblige(f"{what}: assignment minds dependents if there are any", s, to_term(df) == z3.If(hasmethods, z3.If(depd.n == 0, ND.t, WD.t), inh["_setattr_default"].t))
            U.frame(what, st, s, {("g", z) for z in ("own", "sigs", "made", "deperr")})
        U.must_fail(f"{what}: satisfiable", st, z3.BoolVal(False))


for _c, _t in ((("none", None, 0, 0), "no configuration"), (("none", None, 1, 1), "a base that allows property setters, which is not asked for here"), (("none", False, 1, 0), "property setters disallowed"),
               (("map", True, 1, 1), "modes per field, property setters, a base with properties"), (("none", True, 0, 0), "property setters"), (("str", True, 0, 0), "one mode, property setters"),
               (("str", None, 1, 0), "one mode, a base"), (("map", None, 0, 0), "modes per field")):
    unit("C19", f"declaring an evented model ({_t}): a signal for each field and, if asked for, property that can be set, with its reemission mode; each field's operator; the way of assigning fits the dependents",
         ["EventedMetaclass.__new__"], timeout=180, bound="two fields, two properties, two bases")(lambda U, c=_c: u_metaclass(U, *c))


@unit("C19", "the dependents of a field: the names that the configuration lists as depending on it and, if asked for, the properties whose getter reads it; nothing else",
      ["_get_field_dependents"], bound="two fields, two properties, two configured names")
def u_dependents(U):
    E = U.E
    for cfg, key, guess in itertools.product((None, {}, {"p": ("a", "zz"), "b": ("a",)}, {"b": ("b", "a"), "p": ()}, {"nope": ("a",)}, {"p": ("a",), "nope": ("b",)}, "bad"), ("field_dependencies", "property_dependencies", "both"), (None, False, True)):
        if cfg is None and key != "both":
            continue
        st = St().g(warned=0)
        mk = lambda st, items: E.alloc(st, Ext("builtins.dict"), data=DictC(items), kind="dict")
        p, q = SV(fresh_v("prop_p"), "property"), SV(fresh_v("prop_q"), "property")
        GET = {p: SV(fresh_v("getter_p"), "function"), q: SV(fresh_v("getter_q"), "function")}
        nog = fresh_bool("q_has_no_getter")
        st = st.assume(lib.is_object(p.t), lib.is_object(q.t), p.t != q.t, GET[p].t != GET[q].t, *[lib.is_object(g.t) for g in GET.values()])
        cls = SV(fresh_v("cls"), "emcls")
        st, setters = mk(st, {"p": p, "q": q})
        st, fields = mk(st, {"a": SV(fresh_v("field")), "b": SV(fresh_v("field"))})
        conf = {}
        if cfg == "bad":
            st, val = E.new_list(st, Seq.of(["a"]))
        elif cfg is not None:
            st, val = mk(st, dict(cfg))
        if cfg is not None:
            if key == "both":      # the new name, and another value under the deprecated one
                st, old = mk(st, {"q": ("b",)})
                conf = {"field_dependencies": val, "property_dependencies": old}
            else:
                conf = {key: val}
        eff = cfg if key != "both" or cfg not in ({},) else {"q": ("b",)}
        if guess is not None:
            conf["guess_property_dependencies"] = guess
        st, cr = mk(st, conf)
        E.schema[("emcls", "__property_setters__")] = lambda E, st, o, ctx, r=setters: [(st, r)]
        READS = {"p": ("b", "self_thing"), "q": ("a", "b")}

        def fget(E, st, o, ctx):
            if o.t.eq(p.t):
                return [(st, GET[p])]
            return [(s, None if b else GET[q]) for s, b in E.split(st, nog)]
        E.schema[("property", "fget")] = fget
        E.schema[("function", "__code__")] = lambda E, st, o, ctx: [(st, SV(z3.Function("code_of", V, V)(o.t), "code"))]
        cp = z3.Function("code_of", V, V)(GET[p].t)
        E.schema[("code", "co_names")] = lambda E, st, o, ctx: [(st, READS["p"] if o.t.eq(cp) else READS["q"])]
        E.stubs["warnings.warn"] = lambda E, st, ca, ctx, fn: [(st, None)]
        E.assumptions.add("warnings are not turned into errors")
        what = f"dependencies {cfg} ({key}), guess {guess}"
        for kind, s, v in U.run(st, f"{EM}:_get_field_dependents", [cls, cr, fields]):
            unknown = isinstance(eff, dict) and not set(eff) <= {"a", "b", "p", "q"}
            if kind == "raise":
                U.oblige(f"{what}: refused only for what is no mapping (TypeError), or dependents that are no field or property (ValueError)", s,
                         z3.BoolVal(U.exc_is(s, v, "TypeError") and cfg == "bad" or U.exc_is(s, v, "ValueError") and unknown))
                continue
            U.oblige(f"{what}: accepted only if it can be used", s, z3.BoolVal(cfg != "bad" and not unknown))
            if cfg == "bad" or unknown:
                continue
            if not isinstance(v, Ref) or not isinstance(s.d(v), (DictC, DictS)):
                raise Unsupported("dependents in another form")
            d = s.d(v)
            exp = {}
            for n, fs in (eff or {}).items():
                for f in fs:
                    exp.setdefault((f, n), []).append(z3.BoolVal(True))
            if guess:
                for n, fs in READS.items():
                    for f in fs:
                        if f in ("a", "b"):
                            exp.setdefault((f, n), []).append(z3.BoolVal(True) if n == "p" else z3.Not(nog))
            if not isinstance(d, DictC):
                raise Unsupported("dependents in another form")
            for f in set(d.d) | {f for f, _ in exp}:
                x = fresh_v("x")
                want = z3.Or(*[z3.And(x == to_term(n), z3.Or(*c)) for (f2, n), c in exp.items() if f2 == f] or [z3.BoolVal(False)])
                have = lib.set_to_s(s.d(d.d[f])).has(x) if f in d.d else z3.BoolVal(False)
                U.oblige(f"{what}: the dependents of {f}", s, have == want)
            rs = list(d.d.values())
            U.oblige(f"{what}: the sets are not shared", s, z3.BoolVal(len({r.oid for r in rs}) == len(rs) and all(r.oid not in st.heap for r in rs)))
            U.frame(what, st, s, {("g", "warned")})
        U.must_fail(f"{what}: satisfiable", st, z3.BoolVal(False))


@unit("C19", "a new evented model is made by pydantic from what was given, and has a new group of the class's signals bound to it, as its events", ["EventedModel.__init__", "EventedModel.events"])
def u_model_init(U):
    E = U.E
    st = St().g(based=0, made=0)
    cls = E.loader.cls(EM, "EventedModel")
    gc, x = SV(fresh_v("group_class"), "groupclass"), SV(fresh_v("x"))
    st, obj = E.alloc(st, cls, {"__signal_group__": gc})
    group = SV(fresh_v("group"), "events")
    st = st.assume(lib.is_object(group.t))

    def base(E, st, ca, ctx, fn):
        E.obligation("pydantic makes the model from the values given, before anything else", st, z3.And(z3.BoolVal(set(ca.kw) == {"x"} and list(ca.pos) == [obj] and st.ghost["based"] == 0 and st.ghost["made"] == 0), lib.same(E, st, ca.kw.get("x"), x)))
        s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
        ctx.sink.append((s.g(berr=e), e))
        return [(st.g(based=st.ghost["based"] + 1), None)]
    E.stubs["pydantic.BaseModel.__init__"] = base
    E.stubs[f"{EM}:EventedModel.__setattr__"] = lambda E, st, ca, ctx, fn: [(st.setf(ca.pos[0], ca.pos[1], ca.pos[2]), None)]
    E.schema[("groupclass", "()")] = lambda E, st, f, ca, ctx: (E.obligation("the group is bound to the model", st, z3.BoolVal(list(ca.pos) == [obj] and not ca.kw)), [(st.g(made=st.ghost["made"] + 1), group)])[1]
    for kind, s, v in U.run(st, f"{EM}:EventedModel.__init__", [obj], {"x": x}):
        if kind == "raise":
            U.oblige("making a model fails only where pydantic refuses it", s, z3.BoolVal(v == s.ghost.get("berr")))
            continue
        U.oblige("the model is made once, with one group, which is its events", s, z3.And(z3.BoolVal(s.ghost["based"] == 1 and s.ghost["made"] == 1 and "_events" in s.obj(obj).fields), lib.same(E, s, s.obj(obj).fields.get("_events"), group)))
        U.frame("EventedModel()", st, s, {("g", "based"), ("g", "made"), ("f", obj.oid, "_events")})
        for kind, s2, v in U.run(s, f"{EM}:EventedModel.events", [obj]):
            U.oblige("events is this group", s2, z3.And(z3.BoolVal(kind == "ret"), lib.same(E, s2, v, group)))
    U.must_fail("satisfiable", st, z3.BoolVal(False))


def user_body_(U, inside):
    def body(st, v):
        inside(st)
        out = [("n", st, None)]
        for nm in ("user.Exception", "user.BaseException"):
            s, e = U.E.new_exc(st, exc_cls(U.E, nm), ())
            out.append(("raise", s.g(raised=e), e))
        return out
    return body


@unit("C19", "enums_as_values: the setting given holds inside; afterwards, also after an exception, the configuration is what it was", ["EventedModel.enums_as_values"])
def u_enums(U):
    E = U.E
    for was in (None, "old"):
        st = St()
        old, new = SBool(fresh_bool("old_setting")), SBool(fresh_bool("as_values"))
        st, cfg = E.alloc(st, Ext("builtins.dict"), data=DictC({"title": "t", **({"use_enum_values": old} if was else {})}), kind="dict")
        cls = SV(fresh_v("cls"), "emcls")
        E.schema[("emcls", "model_config")] = lambda E, st, o, ctx, cfg=cfg: [(st, cfg)]

        def inside(st):
            d = lib.dict_to_s(E, st.d(cfg))
            U.oblige("inside, enums are shown as asked", st, z3.And(d.has(to_term("use_enum_values")), to_term(d.val(to_term("use_enum_values"))) == to_term(new), d.has(to_term("title"))))
        for kind, s, v in U.run_with(st, f"{EM}:EventedModel.enums_as_values", [cls, new], user_body_(U, inside)):
            d = lib.dict_to_s(E, s.d(cfg))
            x = fresh_v("x")
            U.oblige("afterwards the configuration is what it was", s, z3.And(d.has(x) == z3.Or(x == to_term("title"), x == to_term("use_enum_values") if was else z3.BoolVal(False)), to_term(d.val(to_term("title"))) == to_term("t"),
                     *([to_term(d.val(to_term("use_enum_values"))) == to_term(old)] if was else [])))
            U.oblige("an exception inside is passed on, none is made up", s, z3.BoolVal(v == s.ghost.get("raised") if kind == "raise" else "raised" not in s.ghost))
        U.must_fail("satisfiable", st, z3.BoolVal(False))
