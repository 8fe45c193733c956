"""C07 (and parts of C01, C04, C06): emit, emit_fast, blocking, pausing, resuming."""
from .common import *
from .emit import cb_stub, log0, expected, check_wrapping, depth

RUN = f"{SIG}:SignalInstance._run_emit_loop"


def arb_args(st, prefix="args"):
    """an arbitrary tuple of emitted arguments"""
    a = arb_seq(None, prefix)
    return st.assume(a.zn() >= 0), a


def run_stub(sig, rely=None):
    """Contract of _run_emit_loop (contracts/emit.py): delivers args once (ghost `runs`), and may raise."""
    def h(E, st, ca, ctx, fn):
        args = ca.pos[1] if len(ca.pos) > 1 else ca.kw["args"]
        E.obligation("only this signal's own emission is started", st, lib.same(E, st, ca.pos[0], sig))
        runs = st.ghost["runs"]
        st = st.g(runs=runs + (args,) if isinstance(runs, tuple) else seq_append(runs, args))
        if rely:
            st = rely(E, st)
        raise_user(E, st, ctx, (ELE, "RecursionError", "user.BaseException"))
        return [(st, None)]
    return h


def flag(st, sig, name):
    return zb(st.f(sig, name))


def same_args(E, s, a, b):
    """both are tuples of the same arguments"""
    if isinstance(a, (Seq, tuple)) and isinstance(b, (Seq, tuple)):
        return lib.same_seq(E, s, a, b)
    return lib.same(E, s, a, b)


def elem_type(E, st, v):
    [(s, t)] = lib.FUNCS["builtins.type"](E, st, CallArgs([v]), None)
    return t


@unit(["C07", "C04", "C01"], "emit: blocked drops, paused holds, otherwise delivers once; checks refuse before any delivery",
      ["SignalInstance.emit", "SignalInstance.__call__"], timeout=60)
def u_emit(U):
    E = U.E
    base_schema(E)
    st, sig = signal_instance(E, St(), IMM)
    st, args = arb_args(st)
    st = st.g(runs=())
    E.stubs[RUN] = run_stub(sig)
    binds, match = fresh_bool("binds"), fresh_bool("types_match")
    spec = st.f(sig, "_signature")

    def bind(E, st, f, ca, ctx):
        E.obligation("the arguments are checked against the signal's signature, all of them", st,
                     z3.And(f.t == BINDM(spec.t), lib.same_seq(E, st, ca.seq(), args)))
        s, e = E.new_exc(st.assume(z3.Not(binds)), exc_cls(E, "TypeError"), ())
        ctx.sink.append((s, e))
        return [(st.assume(binds), SV(fresh_v("bound")))]
    BINDM = lib.attr_fun("bind")
    E.schema[("Signature", "bind")] = "bindmeth"
    E.schema[("bindmeth", "()")] = bind
    built = SV(fresh_v("built"), "Signature")

    def types_match(E, st, ca, ctx, fn):
        E.obligation("the types checked are those of the emitted arguments, against the signal's signature", st,
                     z3.And(lib.same(E, st, ca.pos[1], spec), lib.same(E, st, ca.pos[2], built)))
        return [(st, SBool(match))]

    def build(E, st, ca, ctx, fn):
        sq = ca.seq()
        k = fresh_int("k")
        E.obligation("the types checked are those of the emitted arguments", st,
                     z3.And(sq.zn() == args.zn(), z3.Implies(z3.And(0 <= k, k < args.zn()),
                            lib.same(E, st, sq.at(k), elem_type(E, st, args.at(k))))))
        return [(st, built)]
    E.stubs[f"{SIG}:_build_signature"] = build
    E.stubs[f"{SIG}:_parameter_types_match"] = types_match
    c = E.loader.cls(SIG, "SignalInstance")
    st = E.set_class_value(st, c, "_debug_hook", SV(fresh_v("hook"), "hook"))
    E.schema[("hook", "()")] = lambda E, st, f, ca, ctx: [(st, None)]
    E.assumptions.add("SignalInstance._debug_hook, when set, does not raise and does not touch the signal")
    cn, ct = fresh_bool("check_nargs"), fresh_bool("check_types")
    pre = st
    aq = st.f(sig, "_args_queue")
    bl, pa = flag(pre, sig, "_is_blocked"), flag(pre, sig, "_is_paused")
    okc = z3.And(z3.Or(z3.Not(cn), binds), z3.Or(z3.Not(ct), match))
    refused = z3.And(z3.Not(bl), z3.Not(okc))
    for meth in ("emit", "__call__"):
        for kind, s, v in U.run(st, f"{SIG}:SignalInstance.{meth}", [sig], {"check_nargs": SBool(cn), "check_types": SBool(ct)}, star=args):
            runs = s.ghost["runs"]
            held = s.d(s.f(sig, "_args_queue"))
            if kind == "raise" and "raised" not in s.ghost:
                U.oblige(f"{meth} raises TypeError exactly for arguments that fail the requested check", s,
                         z3.And(U.exc_is(s, v, "TypeError"), refused))
            else:
                U.oblige(f"{meth} refuses arguments that fail the requested check", s, z3.Not(refused))
            if kind == "raise" and "raised" in s.ghost:
                U.oblige(f"{meth} passes on the error of the emission", s, z3.BoolVal(v == s.ghost["raised"]))
            U.oblige(f"{meth}: one delivery when neither blocked nor paused; none otherwise", s,
                     z3.If(z3.And(z3.Not(bl), okc, z3.Not(pa)), len(runs) == 1, len(runs) == 0))
            if runs:
                U.oblige(f"{meth}: the arguments given are delivered", s, same_args(E, s, runs[0], args))
            holds = z3.And(z3.Not(bl), okc, pa)
            old = pre.d(aq)
            U.oblige(f"{meth}: held exactly while paused and not blocked", s, held.zn() == old.zn() + z3.If(holds, 1, 0))
            j = fresh_int("j")
            U.oblige(f"{meth}: what was held before stays, in order", s,
                     z3.Implies(z3.And(0 <= j, j < old.zn()), lib.same(E, s, held.at(j), old.at(j))))
            if is_lit(held.zn() == old.zn() + 1) is True:
                U.oblige(f"{meth}: the arguments given are held last", s, same_args(E, s, held.at(old.zn()), args))
            if kind == "ret":
                U.oblige(f"{meth} returns None", s, lib.same(E, s, v, None))
            U.frame(meth, pre, s, {("d", aq.oid), ("g", "runs"), ("g", "raised")})
    U.must_fail("emit precondition satisfiable", st, z3.BoolVal(False))


def is_one(sq):
    return is_lit(sq.zn() == 1) is True


@unit(["C01", "C06", "C07"], "emit_fast: like emit, delivering at once: every slot once in order; wraps errors; leaves the signal as it was",
      ["SignalInstance.emit_fast"], timeout=60)
def u_emit_fast(U):
    E = U.E
    base_schema(E)
    wc = weak_callback_cls(E)
    slots = arb_seq(wc, "slots")
    st, sig = signal_instance(E, log0(St()), IMM, slots=slots)
    st, args = arb_args(st)
    at = to_term(args)
    d0 = depth(st, sig)

    def rely(E, st):
        # a callback may emit again: contracts of emit/emit_fast restore depth and held arguments
        E.obligation("the recursion depth counts this emission while callbacks run", st, depth(st, sig) == d0 + 1)
        return [st]
    E.stubs[f"{WCB}:WeakCallback.cb"] = cb_stub(sig, rely)
    pre = st
    aq = st.f(sig, "_args_queue")
    bl, pa = flag(pre, sig, "_is_blocked"), flag(pre, sig, "_is_paused")
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.emit_fast", [sig], star=args):
        log = s.ghost["log"]
        held = s.d(aq)
        U.oblige("emit_fast: held at the end of the queue exactly while paused and not blocked", s,
                 z3.And(held.zn() == pre.d(aq).zn() + z3.If(z3.And(z3.Not(bl), pa), 1, 0)))
        j = fresh_int("j")
        U.oblige("emit_fast: what was held before stays, in order", s,
                 z3.Implies(z3.And(0 <= j, j < pre.d(aq).zn()), lib.same(E, s, held.at(j), pre.d(aq).at(j))))
        if is_lit(held.zn() == pre.d(aq).zn() + 1) is True:
            U.oblige("emit_fast: the arguments given are held last", s, same_args(E, s, held.at(pre.d(aq).zn()), args))
        U.oblige("emit_fast: callbacks run in slot order, once each, with the emitted arguments", s,
                 z3.And(log.zn() <= slots.zn(), lib.same_seq(E, s, log, expected(slots, args, log.zn()))))
        U.oblige("emit_fast: no callback runs while blocked or paused", s, z3.Or(log.zn() == 0, z3.And(z3.Not(bl), z3.Not(pa))))
        U.oblige("emit_fast: the recursion depth is restored", s, depth(s, sig) == d0)
        U.frame("emit_fast", pre, s, {("d", aq.oid), ("g", "log"), ("g", "raised")})
        if kind == "ret":
            U.oblige("emit_fast: every slot is called when neither blocked nor paused", s, z3.Or(bl, pa, log.zn() == slots.zn()))
            U.oblige("emit_fast: a callback's exception is not swallowed", s, z3.BoolVal("raised" not in s.ghost))
        elif "raised" in s.ghost:
            check_wrapping(U, s, v, s.ghost["raised"], sig)
        else:
            U.oblige("emit_fast refuses only at the recursion limit", s, z3.And(d0 >= 300, U.exc_is(s, v, "RecursionError"), log.zn() == 0))


@unit(["C07"], "block/unblock/pause set their flag and nothing else", ["SignalInstance.block", "SignalInstance.unblock", "SignalInstance.pause"])
def u_flags(U):
    E = U.E
    base_schema(E)
    st, sig = signal_instance(E, St(), IMM)
    for meth, fld, want in (("block", "_is_blocked", True), ("unblock", "_is_blocked", False), ("pause", "_is_paused", True)):
        for kw in ([{}] if meth != "block" else [{}, {"exclude": SV(fresh_v("excl"))}]):
            for kind, s, v in U.run(st, f"{SIG}:SignalInstance.{meth}", [sig], kw):
                U.oblige(f"{meth} does not raise", s, kind == "ret")
                U.oblige(f"{meth} sets the flag", s, flag(s, sig, fld) == z3.BoolVal(want))
                U.frame(meth, st, s, {("f", sig.oid, fld)})
    U.must_fail("satisfiable", st, z3.BoolVal(False))


def resume_setup(U, havoc):
    """`runs` counts deliveries; each is checked against the held queue when it is made."""
    E = U.E
    base_schema(E)
    held = arb_seq(None, "held")
    st, sig = signal_instance(E, St(), IMM, args_queue=held)
    st = st.g(runs=Seq.of([]))

    def rely(E, st):
        E.obligation("nothing is paused any more when held emissions are delivered", st, z3.Not(flag(st, sig, "_is_paused")))
        E.obligation("nothing to be delivered is still held (it could be delivered twice)", st,
                     st.d(st.f(sig, "_args_queue")).zn() == 0)
        return st
    E.stubs[RUN] = run_stub(sig, rely)
    return E, st, sig, held


def nslots(st, sig):
    return st.d(st.f(sig, "_slots")).zn()


@unit(["C07"], "resume delivers what was held, once each and in order, and holds nothing afterwards", ["SignalInstance.resume"])
def u_resume(U):
    E, st, sig, held = resume_setup(U, False)
    pre = st
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.resume", [sig]):
        runs = s.ghost["runs"]
        has = z3.And(held.zn() > 0, nslots(pre, sig) > 0)
        U.oblige("resume: not paused, nothing held", s, z3.And(z3.Not(flag(s, sig, "_is_paused")), s.d(s.f(sig, "_args_queue")).zn() == 0))
        U.oblige("resume delivers held arguments in order, each once", s,
                 z3.And(runs.zn() <= held.zn(), lib.same_seq(E, s, runs, Seq(runs.zn(), held.at))))
        if kind == "ret":
            U.oblige("resume delivers everything that was held to a signal with callbacks", s,
                     runs.zn() == z3.If(has, held.zn(), 0))
        else:
            U.oblige("resume fails only when a delivery does", s, z3.BoolVal(v == s.ghost.get("raised")))
        U.frame("resume", pre, s, {("g", "runs"), ("g", "raised"), ("f", sig.oid, "_args_queue"), ("f", sig.oid, "_is_paused"),
                                   ("d", pre.f(sig, "_args_queue").oid)})
    U.must_fail("satisfiable", st, z3.BoolVal(False))


@unit(["C07"], "resume with a reducer delivers the reduced arguments once", ["SignalInstance.resume"])
def u_reduce(U):
    for arity in (1, 2, None):  # None: a callable without a signature, for instance the builtin max
        for ini in ((False,) if arity == 1 else (False, True)):
            E, st, sig, held = resume_setup(U, False)
            red = SV(fresh_v("reducer"), "reducer")
            E.schema[("reducer", "isinstance")] = lambda E, st, v, c: None

            def redsig(E, st, ca, ctx, f, a=arity):
                if a is None:
                    ctx.sink.append(E.new_exc(st, exc_cls(E, "ValueError"), ()))
                    return []
                return [(st, SV(fresh_v("rs"), "redsig"))]
            E.stubs["inspect.signature"] = redsig
            E.assumptions.add("inspect.signature raises ValueError for a callable without a signature; such a reducer takes two arguments")
            E.schema[("redsig", "parameters")] = lambda E, st, v, ctx, a=arity: [(st, tuple(SV(fresh_v("p")) for _ in range(a)))]
            result = SV(fresh_v("reduced"))

            def call1(E, st, f, ca, ctx):
                E.obligation("the reducer gets the held arguments, in order", st,
                             z3.And(z3.BoolVal(len(ca.pos) == 1), lib.same_seq(E, st, lib.iterate(E, st, ca.pos[0], ctx)[0][1], held)))
                s, e = E.new_exc(st, exc_cls(E, "user.BaseException"), ())
                ctx.sink.append((s.g(raised=e), e))
                return [(st, result)]
            E.schema[("reducer", "()")] = call1
            initial = SV(fresh_v("initial"))

            def fold(E, st, ca, ctx, f):
                E.obligation("functools.reduce gets the reducer, the held arguments in order and the initial value if one was given", st,
                             z3.And(z3.BoolVal(len(ca.pos) == (3 if ini else 2)), lib.same(E, st, ca.pos[0], red),
                                    lib.same_seq(E, st, lib.iterate(E, st, ca.pos[1], ctx)[0][1], held),
                                    lib.same(E, st, ca.pos[2], initial) if ini and len(ca.pos) == 3 else z3.BoolVal(not ini)))
                s, e = E.new_exc(st, exc_cls(E, "user.BaseException"), ())
                ctx.sink.append((s.g(raised=e), e))
                return [(st, result)]
            E.stubs["functools.reduce"] = fold
            E.assumptions.add("functools.reduce folds in order (standard library)")
            pre = st.assume(red.t != V.none)
            kw = {}
            if ini:
                kw["initial"] = initial
                pre = pre.assume(initial.t != to_term(E.module_value(pre, SIG, "_NULL")))
            for kind, s, v in U.run(pre, f"{SIG}:SignalInstance.resume", [sig, red], kw):
                runs = s.ghost["runs"]
                has = z3.And(held.zn() > 0, nslots(pre, sig) > 0)
                U.oblige("resume(reducer): not paused, nothing held", s, z3.And(z3.Not(flag(s, sig, "_is_paused")), s.d(s.f(sig, "_args_queue")).zn() == 0))
                U.oblige("resume(reducer): at most one delivery, of the reducer's result", s,
                         z3.And(runs.zn() <= 1, z3.Implies(runs.zn() == 1, lib.same(E, s, runs.at(0), result))))
                if kind == "ret":
                    U.oblige("resume(reducer): one delivery exactly when something was held and callbacks are connected", s,
                             runs.zn() == z3.If(has, 1, 0))
                else:
                    U.oblige("resume(reducer) fails only when the reducer or the delivery does", s, z3.BoolVal(v == s.ghost.get("raised")))
                U.frame("resume(reducer)", pre, s, {("g", "runs"), ("g", "raised"), ("f", sig.oid, "_args_queue"), ("f", sig.oid, "_is_paused"),
                                                    ("d", pre.f(sig, "_args_queue").oid)})


def user_body(U, inside):
    """with-body: observes the state, keeps it (nested contexts restore it, by this very contract), returns or raises"""
    E = U.E

    def body(st, v):
        inside(st)
        out = [("n", st, None)]
        for nm in ("user.Exception", "user.BaseException"):
            s, e = E.new_exc(st, exc_cls(E, nm), ())
            out.append(("raise", s.g(raised=e), e))
        return out
    return body


@unit(["C07"], "blocked() blocks inside and restores the flag on every way out", ["SignalInstance.blocked", "_SignalBlocker.__init__", "_SignalBlocker.__enter__", "_SignalBlocker.__exit__"])
def u_blocked(U):
    E = U.E
    base_schema(E)
    st, sig = signal_instance(E, St(), IMM)

    def inside(s):
        U.oblige("inside blocked() the signal is blocked", s, flag(s, sig, "_is_blocked"))
        U.frame("entering blocked()", st, s, {("f", sig.oid, "_is_blocked")})
    outs = U.run_with(st, f"{SIG}:SignalInstance.blocked", [sig], user_body(U, inside))
    U.oblige("blocked(): body runs", st, z3.BoolVal(len(outs) >= 3))
    for kind, s, v in outs:
        U.oblige("leaving blocked() restores the blocked flag", s, flag(s, sig, "_is_blocked") == flag(st, sig, "_is_blocked"))
        U.oblige("blocked() neither swallows nor adds exceptions", s, z3.BoolVal((kind == "raise") == ("raised" in s.ghost) and (kind != "raise" or v == s.ghost["raised"])))
        U.frame("blocked()", st, s, {("f", sig.oid, "_is_blocked"), ("g", "raised")})


@unit(["C07"], "paused() holds inside and resumes, with its reducer, unless the signal was paused before", ["SignalInstance.paused", "_SignalPauser.__init__", "_SignalPauser.__enter__", "_SignalPauser.__exit__"])
def u_paused(U):
    E = U.E
    base_schema(E)
    st, sig = signal_instance(E, St(), IMM)
    red, ini = SV(fresh_v("reducer")), SV(fresh_v("initial"))
    st = st.g(resumed=0)

    def resume(E, st, ca, ctx, fn):
        args = E.bind_args(st, fn, ca, ctx)
        a = list(ca.pos[1:]) + [None] * 2
        r = a[0] if len(ca.pos) > 1 else ca.kw.get("reducer")
        i = a[1] if len(ca.pos) > 2 else ca.kw.get("initial")
        E.obligation("paused(reducer, initial) resumes with exactly these", st, z3.And(lib.same(E, st, r, red), lib.same(E, st, i, ini)))
        st = st.setf(ca.pos[0], "_is_paused", False).g(resumed=st.ghost["resumed"] + 1)
        raise_user(E, st, ctx, (ELE,))
        return [(st, None)]
    E.stubs[f"{SIG}:SignalInstance.resume"] = resume

    def inside(s):
        U.oblige("inside paused() the signal is paused", s, flag(s, sig, "_is_paused"))
        U.oblige("entering paused() delivers nothing", s, z3.BoolVal(s.ghost["resumed"] == 0))
        U.frame("entering paused()", st, s, {("f", sig.oid, "_is_paused")})
    outs = U.run_with(st, f"{SIG}:SignalInstance.paused", [sig, red, ini], user_body(U, inside))
    U.oblige("paused(): body runs", st, z3.BoolVal(len(outs) >= 3))
    for kind, s, v in outs:
        U.oblige("leaving paused() restores the paused flag", s, flag(s, sig, "_is_paused") == flag(st, sig, "_is_paused"))
        U.oblige("leaving paused() resumes exactly when the signal was not paused before", s,
                 z3.BoolVal(s.ghost["resumed"] == 1) != flag(st, sig, "_is_paused"))
        U.oblige("paused() neither swallows nor adds exceptions", s, z3.BoolVal((kind == "raise") == ("raised" in s.ghost) and (kind != "raise" or v == s.ghost["raised"])))
        U.frame("paused()", st, s, {("f", sig.oid, "_is_paused"), ("g", "raised"), ("g", "resumed")})
