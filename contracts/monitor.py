"""C23: monitor_events, iter_signal_instances, the debug hook.

`conn` is ghost state: the signals the context is connected to.  The contracts of connect/disconnect (C03, C04: connect adds
one slot and returns it, disconnect of that slot removes exactly it) are used for the signals found."""
from .common import *
from pyvc import loops

UT = "psygnal.utils"
I = z3.IntSort()
PART, SIGOF, REP = z3.Function("part_of", V, V), z3.Function("signal_of_part", V, V), z3.Function("slot_of", V, V)
NAME = lib.attr_fun("name")


def logger_schema(E, st, old, errors=("ValueError", "TypeError")):
    """(st, logger): `old` = it cannot be called with one argument (an EmissionInfo) but with two, (name, args).

    Of a callable one knows by its signature, if it has one, with which arguments it can be called; the code object of a
    function (if there is one) says nothing of the kind: it counts the `self` of a method and parameters with a default."""
    lg = SV(fresh_v("logger"), "logger")
    one, two, has, cnt = fresh_bool("takes_one"), fresh_bool("takes_two"), fresh_bool("has_code"), fresh_int("argcount")
    known = fresh_bool("has_signature")
    st = st.assume(z3.And(z3.Not(one), two, known) if old else z3.Or(one, z3.Not(known)))
    E.assumptions.add("inspect.signature(f) fails with ValueError or TypeError, or gives a signature whose bind() fails, with TypeError, exactly if f cannot be called with these arguments; a logger without a signature takes an EmissionInfo")

    def code(E, st, v, ctx):
        return [E.alloc(s, Ext("types.CodeType"), {"co_argcount": SInt(cnt)}) if b else (s, None) for s, b in E.split(st, has)]
    E.schema[("logger", "__code__")] = code

    def sig(E, st, ca, ctx, fn):
        if not (isinstance(ca.pos[0], SV) and ca.pos[0].t.eq(lg.t)):
            raise Unsupported("signature of something else")
        out = []
        for s, b in E.split(st, known):
            if b:
                out.append((s, SV(fresh_v("signature"), "logsig")))
                continue
            for nm in errors:
                s2, e = E.new_exc(s, exc_cls(E, nm), ())
                ctx.sink.append((s2, e))
        return out
    E.stubs["inspect.signature"] = sig
    E.schema[("logsig", "bind")] = lambda E, st, v, ctx: [(st, Partial(Ext("mon.bind"), [v], {}))]

    def bind(E, st, ca, ctx, fn):
        n = len(ca.pos) - 1
        if n not in (1, 2) or ca.kw or ca.star is not None:
            raise Unsupported("bind")
        out = []
        for s, b in E.split(st, (one, two)[n - 1]):
            if b:
                out.append((s, SV(fresh_v("bound"), "boundargs")))
            else:
                s2, e = E.new_exc(s, exc_cls(E, "TypeError"), ())
                ctx.sink.append((s2, e))
        return out
    E.stubs["mon.bind"] = bind
    return st, lg


def calls(E, ghost="logged"):
    def call(E, st, f, ca, ctx):
        return [(st.g(**{ghost: st.ghost[ghost] + (ca,)}), None)]
    return call


def check_report(U, E, st, fn, sig, old, what):
    """calling the connected closure with any arguments reports them once, with the signal"""
    args = arb_seq(None, "emitted")
    st = st.assume(args.zn() >= 0).g(logged=())
    info = E.loader.cls(GRP, "EmissionInfo")
    pre = st
    c = U.ctx(UT)
    outs = [("ret", s, v) for s, v in E.call(st, fn, CallArgs([], args, {}), c)] + [("raise", s, v) for s, v in c.sink]
    for kind, s, v in outs:
        E.obligation(f"{what}: reporting does not fail", s, z3.BoolVal(kind == "ret"))
        got = s.ghost["logged"]
        E.obligation(f"{what}: each emission is reported exactly once", s, z3.BoolVal(len(got) == 1))
        for ca in got:
            if ca.star is not None or ca.kw:
                raise Unsupported("logger called with * arguments")
            if old:
                E.obligation(f"{what}: reported with the signal's name and its arguments", s, z3.BoolVal(len(ca.pos) == 2))
                if len(ca.pos) == 2:
                    E.obligation(f"{what}: reported with the signal's name", s, lib.same(E, s, ca.pos[0], SV(NAME(sig.t), "str")))
                    same_seq(E, s, ca.pos[1], args, what)
            else:
                ok = len(ca.pos) == 1 and isinstance(ca.pos[0], Ref) and s.obj(ca.pos[0]).cls is info
                E.obligation(f"{what}: reported as one EmissionInfo", s, z3.BoolVal(ok))
                if ok:
                    E.obligation(f"{what}: reported with the signal", s, lib.same(E, s, s.d(ca.pos[0]).at(0), sig))
                    same_seq(E, s, s.d(ca.pos[0]).at(1), args, what)


def same_seq(E, s, v, args, what):
    sq = Seq.of(v) if isinstance(v, tuple) else v
    if not isinstance(sq, Seq):
        raise Unsupported(f"arguments {v!r}")
    k = fresh_int("k")
    E.obligation(f"{what}: reported with the emitted arguments", s,
                 z3.And(sq.zn() == args.zn(), z3.Implies(z3.And(0 <= k, k < args.zn()), lib.same(E, s, sq.at(k), args.at(k)))))


@unit("C23", "monitor_events(obj): inside, every public signal found is connected once, to a report of its own; afterwards no connection is left",
      ["monitor_events"], timeout=200)
def u_monitor_obj(U):
    monitor_obj(U, False)


@unit("C23", "monitor_events(obj) with an old-style logger: the same, reporting name and arguments", ["monitor_events"], timeout=200)
def u_monitor_obj_old(U):
    monitor_obj(U, True)


def monitor_obj(U, old):
    E = U.E
    st = St()
    obj = SV(fresh_v("obj"), "monitored")
    st = st.assume(obj.t != V.none)
    st, lg = logger_schema(E, st, old, ("ValueError",))      # (the other error: see monitor_events())
    E.schema[("logger", "()")] = calls(E)
    E.schema[("signal", "name")] = lambda E, st, v, ctx: [(st, SV(NAME(v.t), "str"))]
    priv = fresh_bool("include_private")
    found = arb_seq("signal", "found")
    k, x = z3.Int("k_f"), z3.Const("x_f", V)
    st = st.assume(found.zn() >= 0, z3.ForAll([x], SIGOF(PART(x)) == x, patterns=[PART(x)]))
    none0 = SetS(lambda t: z3.BoolVal(False), z3.IntVal(0))
    st, conn = E.alloc(st, Ext("builtins.set"), data=none0, kind="set")
    seen = []
    hook = SV(fresh_v("hook"), "hook")
    c = E.loader.cls(SIG, "SignalInstance")
    st = E.set_class_value(st, c, "_debug_hook", hook)
    what = "monitor_events(obj, old logger)" if old else "monitor_events(obj)"

    def it(E, st, ca, ctx, fn):
        p = list(ca.pos)
        pr = p[1] if len(p) > 1 else ca.kw.get("include_private_attrs", False)
        E.obligation(f"{what}: the signals of the object are looked for", st, lib.same(E, st, p[0], obj))
        E.obligation(f"{what}: private signals exactly on request", st, (zb(pr) if isinstance(pr, SBool) else z3.BoolVal(bool(pr))) == priv)
        c2 = exc_cls(E, "user.Exception")
        s, e = E.new_exc(st, c2, ())
        ctx.sink.append((s.g(scan=e), e))
        return [(st, found)]
    E.stubs[f"{UT}:iter_signal_instances"] = it
    real = lib.FUNCS["builtins.dict.fromkeys"]

    def fromkeys(E, st, ca, ctx, fn):
        return [(s.g(order=s.d(r)), r) for s, r in real(E, st, ca, ctx)]
    E.stubs["builtins.dict.fromkeys"] = fromkeys
    E.assumptions.add("dict.fromkeys(items): the distinct items in the order of their first occurrence")
    E.assumptions.add("connect of a function taking any arguments does not fail, adds one slot and returns it; disconnect removes exactly that slot (C03, C04)")

    E.schema[("signal", "connect")] = lambda E, st, v, ctx: [(st, Partial(Ext("mon.connect"), [v], {}))]
    E.schema[("signal", "disconnect")] = lambda E, st, v, ctx: [(st, Partial(Ext("mon.disconnect"), [v], {}))]

    def connect(E, st, ca, ctx, fn):
        sig, rep = ca.pos[0], ca.pos[1]
        if len(ca.pos) != 2 or any(not (k in ("check_nargs", "check_types", "unique") and v is False) for k, v in ca.kw.items()):
            raise Unsupported("connect with options")
        d = st.d(conn)
        E.obligation(f"{what}: no signal is connected twice", st, z3.Not(lib.set_to_s(d).has(sig.t)))
        seen.append((st, rep, sig))
        st = st.setd(conn, lib.set_add(d, sig))
        return [(st, SV(REP(sig.t), "slot"))]
    E.stubs["mon.connect"] = connect

    def gone(E, st, ca, ctx, fn):
        sig = ca.pos[0]
        slot = ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("slot")
        E.obligation(f"{what}: only its own connection is removed", st, z3.And(lib.same(E, st, slot, SV(REP(sig.t), "slot")), lib.set_to_s(st.d(conn)).has(sig.t)))
        return [(st.setd(conn, lib.set_del(st.d(conn), sig)), None)]
    E.stubs["mon.disconnect"] = gone

    def partial(E, st, ca, ctx, fn):
        f = ca.pos[0]
        if isinstance(f, Partial) and isinstance(f.fn, Ext) and f.fn.name == "mon.disconnect" and len(ca.pos) == 2 and not ca.kw and ca.star is None:
            sig = f.args[0]
            E.obligation(f"{what}: only its own connection is removed", st, lib.same(E, st, ca.pos[1], SV(REP(sig.t), "slot")))
            return [(st, SV(PART(sig.t), "part"))]
        return [(st, Partial(ca.pos[0], ca.pos[1:], ca.kw, ca.star, ca.kwstar))]
    E.stubs["functools.partial"] = partial
    E.schema[("part", "()")] = lambda E, st, f, ca, ctx: gone(E, st, CallArgs([SV(SIGOF(f.t), "signal"), SV(REP(SIGOF(f.t)), "slot")]), ctx, None)
    E.schema[("glob", "warnings.warn")] = lambda E, st: (st, Ext("mon.warn"))
    E.stubs["warnings.warn"] = lambda E, st, ca, ctx, fn: [(st, None)]

    def loop(L):
        d = L.st0.ghost.get("order")
        if d is None:
            return {}
        upto = lambda m: lambda t: z3.And(d.has(t), d.pos(t) < m)
        cs = [lambda m: SetS(upto(zlen(m)), zlen(m)),
              lambda m: SetS(lambda x: z3.And(x == PART(SIGOF(x)), upto(zlen(m))(SIGOF(x))), zlen(m)),
              lambda m: Seq(zlen(m), lambda j: SV(PART(d.keys.at(zlen(j)).t), "part"))]
        sets = [o.data for o in L.st0.heap.values() if o.kind == "set" and isinstance(o.data, SetS) and o.data.keys is L.seq]
        if sets and sets[0].pos is not None:
            p = sets[0].pos
            cs.append(lambda m: SetS(lambda t: z3.And(d.has(t), p(PART(t)) >= zlen(m)), d.n - zlen(m)))
        cs.append(lambda m: SetS(lambda t: z3.And(d.has(t), d.pos(t) >= zlen(m)), d.n - zlen(m)))
        return {"cands": cs}
    E.loop_specs["*"] = loop
    E.schema["setelem"] = "part"
    pre = st.g(logged=())
    IN = []

    def body(s, v):
        t, kk = fresh_v("t"), fresh_int("k")
        IN.append(s)
        d = s.ghost.get("order")
        if d is None:
            raise Unsupported("the signals found are not collected by dict.fromkeys")
        has = lib.set_to_s(s.d(conn)).has
        E.obligation(f"{what}: every signal found is connected", s, z3.Implies(z3.And(0 <= kk, kk < found.zn()), has(found.at(kk).t)))
        E.obligation(f"{what}: no other signal is connected", s, z3.Implies(has(t), z3.And(d.has(t), d.keys.at(d.pos(t)).t == t)))
        final = {id(p[1]) for p in E.pending}
        for s0, rep, sig in seen:
            if id(s0) not in final or s0.ghost["order"] is not d:
                continue
            s1 = s.assume(*[x for x in s0.pc if not any(x is y for y in s.pc)])
            check_report(U, E, s1, rep, sig, old, what)
        out = [("n", s.g(body="left"), None)]
        s2, e = E.new_exc(s, exc_cls(E, "user.BaseException"), ())
        out.append(("raise", s2.g(body=e), e))
        return out
    outs = U.run_with(pre, f"{UT}:monitor_events", [obj, lg, SBool(priv)], body)
    U.oblige(f"{what}: the context can be entered", pre, z3.BoolVal(bool(IN)))
    for kind, s, v in outs:
        t = fresh_v("t")
        U.oblige(f"{what}: no connection is left behind", s, z3.Not(lib.set_to_s(s.d(conn)).has(t)))
        U.oblige(f"{what}: the global hook is not touched", s, lib.same(E, s, E.class_value(s, c, "_debug_hook", U.ctx(UT))[0][1], hook))
        if kind == "raise":
            why = s.ghost.get("body") if s.ghost.get("body") not in (None, "left") else s.ghost.get("scan")
            U.oblige(f"{what}: only errors of the body and of reading the attributes are raised", s, z3.BoolVal(why is not None and v == why))
        else:
            U.oblige(f"{what}: the body ran", s, z3.BoolVal(s.ghost.get("body") == "left"))
    U.must_fail(f"{what}: precondition satisfiable", pre, z3.BoolVal(False))


@unit("C23", "monitor_events(): the logger is the debug hook inside and the previous hook is back on every way out; an old-style logger is refused",
      ["monitor_events"])
def u_monitor_all(U):
    E = U.E
    for old in (False, True):
        st = St()
        st, lg = logger_schema(E, st, old)
        E.schema[("logger", "()")] = calls(E)
        c = E.loader.cls(SIG, "SignalInstance")
        for hook in (None, SV(fresh_v("hook"), "hook")):
            st = E.set_class_value(st, c, "_debug_hook", hook)
            IN = []
            dbg = lambda s: E.class_value(s, c, "_debug_hook", U.ctx(UT))[0][1]

            def body(s, v):
                IN.append(s)
                U.oblige("inside monitor_events() the logger is the debug hook", s, lib.same(E, s, dbg(s), lg))
                # whatever the body leaves in the hook (a nested monitor_events() restores it, by this contract)
                out = [("n", s.g(body="left"), None)]
                for nm in ("user.Exception", "user.BaseException"):
                    s2, e = E.new_exc(s, exc_cls(E, nm), ())
                    out.append(("raise", s2.g(body=e), e))
                return out
            outs = U.run_with(st, f"{UT}:monitor_events", [None, lg], body)
            U.oblige("monitor_events(old-style logger) does not enter the context" if old else "monitor_events() enters the context", st, z3.BoolVal(bool(IN) != old))
            for kind, s, v in outs:
                U.oblige("leaving monitor_events(): the previous hook is back", s, lib.same(E, s, dbg(s), hook))
                if old:
                    U.oblige("an old-style logger is refused with ValueError", s, z3.BoolVal(kind == "raise") if kind != "raise" else U.exc_is(s, v, "ValueError"))
                else:
                    U.oblige("monitor_events() neither swallows nor adds exceptions", s, z3.BoolVal((s.ghost.get("body") == "left") if kind != "raise" else s.ghost.get("body") == v))
    U.must_fail("satisfiable", st, z3.BoolVal(False))


def hook_setup(U, relay=False, **over):
    """a signal in an arbitrary state; `hooked` and `runs` are the arguments reported and delivered so far"""
    E = U.E
    base_schema(E)
    cls = E.loader.cls(GRP, "SignalRelay") if relay else None
    st, sig = signal_instance(E, St(), IMM, cls=cls, **over)
    st = st.g(runs=Seq.of([]), hooked=Seq.of([]))
    hook = SV(fresh_v("hook"), "hook")
    st = st.assume(hook.t != V.none)
    st = E.set_class_value(st, E.loader.cls(SIG, "SignalInstance"), "_debug_hook", hook)
    info = E.loader.cls(GRP, "EmissionInfo")

    def call(E, st, f, ca, ctx):
        ok = len(ca.pos) == 1 and ca.star is None and not ca.kw and isinstance(ca.pos[0], Ref) and st.obj(ca.pos[0]).cls is info
        E.obligation("the hook is called with one EmissionInfo", st, z3.BoolVal(ok))
        if not ok:
            return [(st, None)]
        d = st.d(ca.pos[0])
        E.obligation("reported with the signal that emits", st, lib.same(E, st, d.at(0), sig))
        return [(st.g(hooked=seq_append(st.ghost["hooked"], d.at(1))), None)]
    E.schema[("hook", "()")] = call
    E.assumptions.add("SignalInstance._debug_hook, when set, does not raise and does not touch the signal")
    return E, st, sig


def deliver(relay):
    def run(E, st, ca, ctx, fn):
        runs, hk = st.ghost["runs"], st.ghost["hooked"]
        if not relay:
            E.obligation("an emission is reported before it is delivered", st, hk.zn() == runs.zn() + 1)
        st = st.g(runs=seq_append(runs, ca.pos[1]))
        raise_user(E, st, ctx, (ELE, "user.BaseException"))
        return [(st, None)]
    return run


def as_args(v):
    return Seq.of(v) if isinstance(v, tuple) else v


def eq_args(E, s, a, b):
    if isinstance(a, (Seq, tuple)) and isinstance(b, (Seq, tuple)):
        return lib.same_seq(E, s, a, b)
    return lib.same(E, s, a, b)


@unit("C23", "emit and emit_fast report each emission to the hook once, with its arguments, unless blocked or held",
      ["SignalInstance.emit", "SignalInstance.__call__", "SignalInstance.emit_fast"])
def u_emit_hook(U):
    for meth in ("emit", "__call__", "emit_fast"):
        E, st, sig = hook_setup(U)
        args = arb_seq(None, "args")
        st = st.assume(args.zn() >= 0)
        E.stubs[f"{SIG}:SignalInstance._run_emit_loop"] = deliver(False)

        def cb(E, st, ca, ctx, fn):
            E.obligation("emit_fast: reported before it is delivered", st, st.ghost["hooked"].zn() == 1)
            raise_user(E, st, ctx, ("user.Exception", "user.BaseException"))
            return [(st, None)]
        E.stubs[f"{WCB}:WeakCallback.cb"] = cb
        bl, pa = zb(st.f(sig, "_is_blocked")), zb(st.f(sig, "_is_paused"))
        for kind, s, v in U.run(st, f"{SIG}:SignalInstance.{meth}", [sig], star=args):
            hk, runs = s.ghost["hooked"], s.ghost["runs"]
            U.oblige(f"{meth}: reported once when neither blocked nor held, otherwise not at all", s, hk.zn() == z3.If(z3.Or(bl, pa), 0, 1))
            if is_lit(hk.zn() == 1) is True:
                U.oblige(f"{meth}: reported with the arguments emitted", s, eq_args(E, s, hk.at(0), args))
            if meth != "emit_fast":
                U.oblige(f"{meth}: what is delivered was reported, and the reverse", s, hk.zn() == runs.zn())
        U.must_fail("satisfiable", st, z3.BoolVal(False))


@unit("C23", "resume reports each emission that was held to the hook once, with the arguments delivered; a group's relay reports nothing again",
      ["SignalInstance.resume", "SignalInstance._emit_held", "SignalRelay._emit_held"])
def u_resume_hook(U):
    for relay in (False, True):
        for red in (None, "one"):
            held = arb_seq(None, "held")
            E, st, sig = hook_setup(U, relay, args_queue=held)
            E.stubs[f"{SIG}:SignalInstance._run_emit_loop"] = deliver(relay)
            st = st.assume(held.zn() >= 0)
            result = SV(fresh_v("reduced"))
            args = []
            if red:
                f = SV(fresh_v("reducer"), "reducer")
                st = st.assume(f.t != V.none)
                E.stubs["inspect.signature"] = lambda E, st, ca, ctx, f: [(st, SV(fresh_v("rs"), "redsig"))]
                E.schema[("redsig", "parameters")] = lambda E, st, v, ctx: [(st, (SV(fresh_v("p")),))]
                E.schema[("reducer", "()")] = lambda E, st, f, ca, ctx: [(st, result)]
                args = [f]
            what = "a relay's resume" if relay else "resume"
            for kind, s, v in U.run(st, f"{SIG}:SignalInstance.resume", [sig] + args):
                hk, runs = s.ghost["hooked"], s.ghost["runs"]
                if relay:
                    U.oblige(f"{what}: nothing is reported a second time", s, hk.zn() == 0)
                else:
                    U.oblige(f"{what}: what is delivered is reported, once each and in order", s, z3.And(hk.zn() == runs.zn(), lib.same_seq(E, s, hk, runs)))
    U.must_fail("satisfiable", st, z3.BoolVal(False))


@unit("C23", "iter_signal_instances of a group: exactly the group's signals", ["iter_signal_instances"])
def u_iter_group(U):
    E = U.E
    st = St()
    names = arb_seq("str", "names")
    st = st.assume(names.zn() >= 0)
    g = SV(fresh_v("group"), E.loader.cls(GRP, "SignalGroup"))
    E.schema[("isinstance", f"{GRP}:SignalGroup")] = lambda E, st, v: True if v is g else None
    GET = z3.Function("group_item", V, V, V)
    E.stubs[f"{GRP}:SignalGroup.__iter__"] = lambda E, st, ca, ctx, fn: [(st, names)]
    E.stubs[f"{GRP}:SignalGroup.__getitem__"] = lambda E, st, ca, ctx, fn: [(st, SV(GET(ca.pos[0].t, to_term(ca.pos[1])), E.loader.cls(SIG, "SignalInstance")))]
    E.assumptions.add("SignalGroup.__iter__ yields the names of its signals and [] gives the signal of a name (C09)")
    for kind, s, v in U.run(st, f"{UT}:iter_signal_instances", [g, SBool(fresh_bool("private"))]):
        U.oblige("iterating a group does not fail", s, z3.BoolVal(kind == "ret" and isinstance(v, Seq)))
        if isinstance(v, Seq):
            k = fresh_int("k")
            U.oblige("each signal of the group, once", s, z3.And(v.zn() == names.zn(), z3.Implies(z3.And(0 <= k, k < v.zn()), to_term(v.at(k)) == GET(g.t, names.at(k).t))))
    U.must_fail("satisfiable", st, z3.BoolVal(False))


@unit("C23", "iter_signal_instances: for each attribute that can be read, private ones on request, the signal it is or the relay of the group it is",
      ["iter_signal_instances"], timeout=120)
def u_iter_obj(U):
    E = U.E
    st = St()
    obj = SV(fresh_v("obj"), "monitored")
    names = arb_seq("str", "names")
    st = st.assume(names.zn() >= 0)
    priv = fresh_bool("include_private")
    isprivate = z3.Function("str_startswith", V, V, z3.BoolSort())
    KIND, ATTR, RELAY = fresh_fun("attr_kind", V, I), fresh_fun("attr", V, V), fresh_fun("relay_of", V, V)
    k, j = z3.Int("k_it"), z3.Int("j_it")
    lib._symstr[("startswith", 1)] = isprivate
    E.schema[("isinstance", f"{GRP}:SignalGroup")] = lambda E, st, v: False if v is obj else (AK(v) == 4 if isinstance(v, SV) and v.cls == "attrvalue" else None)
    E.schema[("isinstance", f"{SIG}:SignalInstance")] = lambda E, st, v: AK(v) == 3 if isinstance(v, SV) and v.cls == "attrvalue" else None
    AKF = fresh_fun("kind_of_value", V, I)
    AK = lambda v: AKF(v.t)
    E.stubs["builtins.dir"] = lambda E, st, ca, ctx, fn: [(st, names)]

    def get(E, st, o, name, default, ctx):
        E.obligation("attributes of the object are read", st, lib.same(E, st, o, obj))
        nm = name.t
        out = []
        for s, b in E.split(st, KIND(nm) == 0):
            if b:
                s2, e = E.new_exc(s, exc_cls(E, "builtins.AttributeError"), ())
                if default is not UNBOUND:
                    out.append((s, default))
                else:
                    ctx.sink.append((s2, e))
                continue
            for s, b in E.split(s, KIND(nm) == 1):
                if b:
                    s2, e = E.new_exc(s, exc_cls(E, "builtins.FutureWarning"), ())
                    ctx.sink.append((s2, e))
                    continue
                for s, b in E.split(s, KIND(nm) == 2):
                    if b:
                        s2, e = E.new_exc(s, exc_cls(E, "user.Exception"), ())
                        ctx.sink.append((s2.g(readerr=e), e))
                        continue
                    out.append((s.assume(AKF(ATTR(nm)) == KIND(nm)), SV(ATTR(nm), "attrvalue")))
        return out
    E.schema[("getattr", "dynamic")] = get
    E.schema[("attrvalue", "_psygnal_relay")] = lambda E, st, v, ctx: [(st, SV(RELAY(v.t), "signal"))]
    E.schema[("attrvalue", "all")] = E.schema[("attrvalue", "_psygnal_relay")]
    LY, Y = fresh_fun("n_found", I, I), fresh_fun("found", I, V)

    def parts(m):
        nm = names.at(m).t
        pub = z3.Or(priv, z3.Not(isprivate(nm, to_term("_"))))
        hit = z3.And(pub, z3.Or(KIND(nm) == 3, KIND(nm) == 4))
        return hit, z3.If(KIND(nm) == 3, ATTR(nm), RELAY(ATTR(nm)))

    def facts(m):
        m = zlen(m)
        hit, val = parts(m)
        return [LY(m + 1) == LY(m) + z3.If(hit, 1, 0), z3.Implies(hit, Y(LY(m)) == val)]
    st = st.assume(LY(0) == 0)
    E.loop_specs["*"] = lambda L: {"cands": [lambda m: Seq(LY(zlen(m)), lambda j: SV(Y(zlen(j)), "signal"))], "facts": facts,
                                   "inv": lambda s, m: [("count", LY(zlen(m)) >= 0)]}
    n = names.zn()
    for kind, s, v in U.run(st, f"{UT}:iter_signal_instances", [obj, SBool(priv)]):
        if kind == "raise":
            U.oblige("only an error of reading an attribute is raised, and not AttributeError or FutureWarning", s, z3.BoolVal(v == s.ghost.get("readerr")))
            continue
        U.oblige("yields signals", s, z3.BoolVal(isinstance(v, Seq)))
        if isinstance(v, Seq):
            i = fresh_int("i")
            U.oblige("exactly the public (or also private) signals and group relays, in the order of the attributes", s,
                     z3.And(v.zn() == LY(n), z3.Implies(z3.And(0 <= i, i < v.zn()), to_term(v.at(i)) == Y(i))))
    U.must_fail("satisfiable", st, z3.BoolVal(False))
