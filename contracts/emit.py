"""C01: order and completeness of callback invocation.  Ghost `log`: (slot, args) of every callback
call this activation makes."""
from .common import *


def cb_stub(sig_of, rely=None, check=None):
    """Protocol contract of WeakCallback.cb(args) as seen by the emitter.

    Records the call, then the environment acts (`rely`: what a callback may do to the signal),
    then the callback returns or raises any class of exception."""
    def h(E, st, ca, ctx, fn):
        slot, args = ca.pos[0], (ca.pos[1] if len(ca.pos) > 1 else ca.kw["args"])
        if check is not None:
            st = check(E, st, slot, args) or st
        log = st.ghost["log"]
        st = st.g(log=seq_append(log, SV(tup_term([to_term(slot), to_term(args)]))))
        out = []
        for s in (rely(E, st) if rely else [st]):
            raise_user(E, s, ctx)
            out.append((s, None))
        return out
    return h


def log0(st):
    return st.g(log=Seq.of([]))


def expected(slots, args, n):
    at = to_term(args)
    return Seq(n, lambda k: SV(tup_term([to_term(slots.at(k)), at])))


def prio(E, s):
    return lib.attr_fun("priority")(to_term(s))


def sorted_desc(seq):
    """slots sorted by priority, descending (quantified)"""
    i, j = z3.Ints("i_s j_s")
    p = lib.attr_fun("priority")
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < seq.zn()),
                                        V.vi(p(to_term(seq.at(i)))) >= V.vi(p(to_term(seq.at(j))))))


@unit(["C01"], "_append_slot keeps slots ordered by priority, ties in connection order",
      ["SignalInstance._append_slot"])
def u_append(U):
    E = U.E
    base_schema(E)
    wc = weak_callback_cls(E)
    slots = arb_seq(wc, "slots")
    prio_in_use = fresh_bool("prio_in_use")
    st, sig = signal_instance(E, St(), IMM, slots=slots, _priority_in_use=SBool(prio_in_use))
    p = lib.attr_fun("priority")
    P = lambda s: V.vi(p(to_term(s)))
    k0 = z3.Int("k_inv")
    # representation invariant: sorted; and when priorities were never used all are zero
    inv = z3.And(sorted_desc(slots),
                 z3.Implies(z3.Not(prio_in_use),
                            z3.ForAll([k0], z3.Implies(z3.And(0 <= k0, k0 < slots.zn()), P(slots.at(k0)) == 0))))
    st = st.assume(inv)
    new = SV(fresh_v("newslot"), wc)
    n = slots.zn()
    U.must_fail("precondition of _append_slot is satisfiable", st, z3.BoolVal(False))
    outs = U.run(st, f"{SIG}:SignalInstance._append_slot", [sig, new])
    for kind, s, v in outs:
        U.oblige("_append_slot does not raise", s, kind == "ret")
        if kind != "ret":
            continue
        sl = s.d(s.f(sig, "_slots"))
        pos = fresh_int("pos")
        kk = fresh_int("kk")
        # post: exactly `new` inserted at the end of its priority class
        i = z3.Int("i_pos")
        # position = number of slots with priority >= new.priority  (slots are sorted)
        ispos = z3.And(0 <= pos, pos <= n,
                       z3.Implies(pos > 0, P(slots.at(pos - 1)) >= P(new)),
                       z3.Implies(pos < n, P(slots.at(pos)) < P(new)))
        s2 = s.assume(ispos)
        U.oblige("one slot more", s, sl.zn() == n + 1)
        U.oblige("new slot goes after every slot of at least its priority and before the others; others keep their order",
                 s2, z3.Implies(z3.And(0 <= kk, kk <= n),
                                to_term(sl.at(kk)) == z3.If(kk < pos, to_term(slots.at(kk)),
                                                            z3.If(kk == pos, to_term(new), to_term(slots.at(kk - 1))))))
        U.oblige("priority flag set when a priority is used", s,
                 z3.Implies(P(new) != 0, zb(s.f(sig, "_priority_in_use"))))
        U.oblige("priority flag kept", s, z3.Implies(prio_in_use, zb(s.f(sig, "_priority_in_use"))))
        U.frame("_append_slot", st, s, {("d", st.f(sig, "_slots").oid), ("f", sig.oid, "_priority_in_use")})


def frame_ok(sig, st):
    return {("g", "log"), ("g", "raised")}


@unit(["C01"], "immediate emission calls every slot once, in order, with the emitted arguments",
      ["SignalInstance._run_emit_loop_immediate"])
def u_immediate(U):
    E = U.E
    base_schema(E)
    wc = weak_callback_cls(E)
    slots = arb_seq(wc, "slots")
    q = arb_seq(None, "emitq")
    st, sig = signal_instance(E, log0(St()), IMM, slots=slots, emit_queue=q)
    st = st.assume(q.zn() >= 1)
    E.stubs[f"{WCB}:WeakCallback.cb"] = cb_stub(sig)
    outs = U.run(st, f"{SIG}:SignalInstance._run_emit_loop_immediate", [sig])
    for kind, s, v in outs:
        log = s.ghost["log"]
        if kind == "ret":
            U.oblige("every connected callback is called exactly once, in slot order", s,
                     lib.same_seq(E, s, log, expected(slots, q.at(0), slots.zn())))
            qq = s.d(s.f(sig, "_emit_queue"))
            U.oblige("only the emitted arguments leave the queue", s,
                     lib.same_seq(E, s, qq, Seq(q.zn() - 1, lambda k: q.at(k + 1))))
            U.must_fail("normal return is reachable", s, z3.BoolVal(False))
        else:
            m = fresh_int("m")
            U.oblige("a raising callback is called after exactly the slots before it", s,
                     z3.And(log.zn() >= 1, log.zn() <= slots.zn(),
                            lib.same_seq(E, s, log, expected(slots, q.at(0), log.zn()))))
        U.frame("_run_emit_loop_immediate", st, s, {("d", st.f(sig, "_emit_queue").oid), ("g", "log"), ("g", "raised")})


# ---------------------------------------------------------------- queued mode

def queue_rel():
    """Rely on re-emission in queued mode: the queue is only ever extended (its prefix is stable)."""
    def make(v0):
        n2 = fresh_int("qn")
        return Seq(n2, v0.at), [n2 >= v0.zn()]

    def check(E, s, v0, v):
        j = fresh_int("j")
        return z3.And(v.zn() >= v0.zn(), z3.Implies(z3.And(0 <= j, j < v.zn()), lib.same(E, s, v.at(j), v0.at(j))))
    return make, check


def monitor_forms(slots, qloc):
    """Closed forms of the call monitor (ghost pos/row) over the loops of the queued emission.

    `pos` = calls already made for row `row`; it starts full (pos == number of slots), so the
    first call of a row wraps.  Any loop calling the slots in order from a full row leaves
    pos == iterations; a loop over rows leaves pos full and advances row by one each time."""
    n = slots.zn()

    def spec(L):
        rel = {qloc: queue_rel()}
        pos0, row0 = L.st0.ghost.get("pos"), L.st0.ghost.get("row")
        if pos0 is None:
            return None
        over_slots = L.seq is not None and is_lit(L.seq.zn() == n) is True
        if over_slots:
            return {"rel": rel, "forms": {
                ("g", "pos"): lambda m: ite(zlen(m) == 0, pos0, SInt(zlen(m))),
                ("g", "row"): lambda m: ite(zlen(m) == 0, row0, mkint(zi(row0) + 1))}}
        def inv(s, m):
            return [("rows delivered so far are queued", z3.Or(n == 0, zi(s.ghost["row"]) + 1 <= s.heap[qloc[1]].data.zn()))]
        return {"rel": rel, "inv": inv, "forms": {
            ("g", "pos"): lambda m: pos0,
            ("g", "row"): lambda m: ite(n == 0, row0, mkint(zi(row0) + zlen(m)))}}
    return spec


def queued_setup(U, loop_rely=True):
    E = U.E
    base_schema(E)
    wc = weak_callback_cls(E)
    slots = arb_seq(wc, "slots")
    q = arb_seq(None, "emitq")
    st, sig = signal_instance(E, St(), QUE, slots=slots, emit_queue=q)
    st = st.assume(q.zn() >= 1)
    st = st.g(pos=mkint(slots.zn()), row=-1)
    n = slots.zn()

    def check(E, st, slot, args):
        pos, row = zi(st.ghost["pos"]), zi(st.ghost["row"])
        full = pos == n
        k = z3.simplify(z3.If(full, 0, pos))
        r = z3.simplify(z3.If(full, row + 1, row))
        qd = st.d(st.f(sig, "_emit_queue"))
        E.obligation("queued: each callback call is the next slot in order", st, lib.same(E, st, slot, slots.at(k)))
        E.obligation("queued: each row is called with the arguments of the next queued emission, in emission order", st,
                     z3.And(r < qd.zn(), lib.same(E, st, args, q.at(r))))
        E.obligation("queued: re-emissions made by a callback find the queue non-empty (so they are deferred)", st, qd.zn() >= 1)
        return st.g(pos=mkint(k + 1), row=mkint(r))

    def rely(E, st):
        # a callback may emit again any number of times: the queue is extended, never reordered
        qref = st.f(sig, "_emit_queue")
        qd = st.d(qref)
        n2 = fresh_int("qn")
        st = st.assume(n2 >= qd.zn())
        return [st.setd(qref, Seq(n2, qd.at))]

    def h(E, st, ca, ctx, fn):
        slot, args = ca.pos[0], (ca.pos[1] if len(ca.pos) > 1 else ca.kw["args"])
        st = check(E, st, slot, args)
        out = []
        for s in rely(E, st):
            raise_user(E, s, ctx)
            out.append((s, None))
        return out
    E.stubs[f"{WCB}:WeakCallback.cb"] = h
    E.loop_specs[f"{SIG}:SignalInstance._run_emit_loop_queued"] = monitor_forms(slots, ('d', st.f(sig, '_emit_queue').oid))
    return E, st, sig, slots, q


@unit(["C05", "C01"], "queued emission: rows in emission order, each row calls every slot in order",
      ["SignalInstance._run_emit_loop_queued"])
def u_queued(U):
    E, st, sig, slots, q = queued_setup(U)
    outs = U.run(st, f"{SIG}:SignalInstance._run_emit_loop_queued", [sig])
    n = slots.zn()
    for kind, s, v in outs:
        qd = s.d(s.f(sig, "_emit_queue"))
        pos, row = zi(s.ghost["pos"]), zi(s.ghost["row"])
        if kind == "ret":
            U.oblige("queued: on return every queued emission has reached every slot", s,
                     z3.Or(n == 0, z3.And(pos == n, row + 1 == qd.zn())))
        U.frame("_run_emit_loop_queued", st, s, {("d", st.f(sig, "_emit_queue").oid), ("g", "pos"), ("g", "row"), ("g", "raised")})


# ---------------------------------------------------------------- latest-only mode

def depth(st, sig):
    return zi(st.f(sig, "_recursion_depth"))


def maxdepth(st, sig):
    return zi(st.f(sig, "_max_recursion_depth"))


@unit(["C05", "C01"], "latest-only emission: the emission in progress stops after a nested emission, and is complete otherwise",
      ["SignalInstance._run_emit_loop_latest_only"])
def u_latest(U):
    E = U.E
    base_schema(E)
    wc = weak_callback_cls(E)
    slots = arb_seq(wc, "slots")
    q = arb_seq(None, "emitq")
    # (`_args`, `_caller`: written by every activation, a nested one included)
    st, sig = signal_instance(E, log0(St()), LAT, slots=slots, emit_queue=q, _args=SV(fresh_v("args_attr")), _caller=SV(fresh_v("caller_attr")))
    # established by _run_emit_loop (its own contract): this activation is the deepest one
    st = st.assume(q.zn() >= 1, depth(st, sig) >= 1, maxdepth(st, sig) == depth(st, sig))
    st = st.g(nested=False)
    qref = st.f(sig, "_emit_queue")

    def check(E, st, slot, args):
        E.obligation("latest-only: no callback of the older emission runs after a nested emission", st,
                     z3.Not(zb(st.ghost["nested"])))

    def rely(E, st):
        # without nested emission the signal is untouched; a nested emission (contract of
        # _run_emit_loop) restores the depth, raises the maximum above it and leaves the queue empty
        b, m = fresh_bool("renters"), fresh_int("m")
        quiet = st.assume(z3.Not(b))
        nest = st.assume(b, m > depth(st, sig)).setf(sig, "_max_recursion_depth", SInt(m)).setd(qref, Seq.of([])).g(nested=True)
        nest = nest.setf(sig, "_args", SV(fresh_v("args_nested"))).setf(sig, "_caller", SV(fresh_v("caller_nested")))
        return [quiet, nest]

    E.stubs[f"{WCB}:WeakCallback.cb"] = cb_stub(sig, rely, check)

    def spec(L):
        if "nested" not in L.st0.ghost:
            return None

        def inv(s, m):
            return [("a nested emission leaves max depth above depth", zb(s.ghost["nested"]) == (depth(s, sig) < maxdepth(s, sig)))]

        def mk(v0):
            m = fresh_int("mx")
            return SInt(m), [m >= zi(v0)]
        sel = lambda E, s, v0, v: zi(v) >= zi(v0)
        return {"inv": inv, "rel": {
            ("f", sig.oid, "_max_recursion_depth"): (mk, sel),
            ("g", "nested"): (lambda v0: (SBool(fresh_bool("nst")), []), lambda E, s, v0, v: z3.BoolVal(True)),
            ("d", qref.oid): (lambda v0: (Seq(fresh_int("qq"), v0.at), []), lambda E, s, v0, v: z3.BoolVal(True)),
        }}
    E.loop_specs[f"{SIG}:SignalInstance._run_emit_loop_latest_only"] = spec
    outs = U.run(st, f"{SIG}:SignalInstance._run_emit_loop_latest_only", [sig])
    for kind, s, v in outs:
        log = s.ghost["log"]
        U.oblige("latest-only: callbacks called are a prefix of the slots, in order, once each, with the emitted arguments", s,
                 z3.And(log.zn() <= slots.zn(), lib.same_seq(E, s, log, expected(slots, q.at(0), log.zn()))))
        if kind == "ret":
            U.oblige("latest-only: without nested emission every slot is called", s,
                     z3.Or(zb(s.ghost["nested"]), log.zn() == slots.zn()))
        U.oblige("latest-only: depth unchanged", s, depth(s, sig) == depth(st, sig))
        # auxiliary attributes (_args, _caller) are the implementation's own
        U.frame("_run_emit_loop_latest_only", st, s, {("d", qref.oid), ("g", "log"), ("g", "raised"), ("g", "nested"),
                ("f", sig.oid, "_max_recursion_depth"), ("f", sig.oid, "_args"), ("f", sig.oid, "_caller")})


# ---------------------------------------------------------------- _run_emit_loop

def inner_stub(mode):
    """Contract of the selected `_run_emit_loop_*` used at the call in _run_emit_loop."""
    def h(E, st, ca, ctx, fn):
        sig = ca.pos[0]
        q = st.d(st.f(sig, "_emit_queue"))
        g = st.ghost
        E.obligation("the emission loop starts with exactly the new emission in the queue", st,
                     z3.And(q.zn() == 1, lib.same(E, st, q.at(0), g["want_args"])))
        E.obligation("the emission loop starts at its own depth, with the maximum equal to it", st,
                     z3.And(depth(st, sig) == g["want_depth"], maxdepth(st, sig) == depth(st, sig)))
        E.obligation("the emitter is current while callbacks run", st, lib.same(E, st, current_emitter(E, st), sig))
        E.obligation("the emission lock is held while callbacks run", st, zi(st.f(st.f(sig, "_lock"), "depth")) > g["lock0"])
        # effect: queue arbitrary, depth kept, maximum not lowered
        q2, m = arb_seq(None, "q2"), fresh_int("m2")
        st = st.assume(q2.zn() >= 0, m >= maxdepth(st, sig))
        st = st.setd(st.f(sig, "_emit_queue"), q2).setf(sig, "_max_recursion_depth", SInt(m)).g(ran=st.ghost["ran"] + 1)
        raise_user(E, st, ctx)
        return [(st, None)]
    return h


def current_emitter(E, st):
    c = E.loader.cls(SIG, "Signal")
    return st.heap[("cls", c.qual)].fields["_current_emitter"]


def with_emitter(E, st):
    """Signal._current_emitter holds an arbitrary object (or None)"""
    c = E.loader.cls(SIG, "Signal")
    return E.set_class_value(st, c, "_current_emitter", SV(fresh_v("emitter")))


EMITTER = ("f", ("cls", f"{SIG}:Signal"), "_current_emitter")
CLSD = ("d", ("cls", f"{SIG}:Signal"))


def run_emit_setup(U, mode):
    E = U.E
    base_schema(E)
    st, sig = signal_instance(E, St(), mode)
    st = with_emitter(E, st)
    args = SV(fresh_v("args"), None)
    st = st.g(want_args=args, want_depth=depth(st, sig) + 1, ran=0, lock0=zi(st.f(st.f(sig, "_lock"), "depth")))
    for f in ("immediate", "queued", "latest_only"):
        E.stubs[f"{SIG}:SignalInstance._run_emit_loop_{f}"] = inner_stub(mode)
    return E, st, sig, args


@unit(["C06", "C05", "C01"], "_run_emit_loop: queues when an emission is pending, else delivers; always restores the signal; wraps errors",
      ["SignalInstance._run_emit_loop", "Signal._emitting"])
def u_run_emit(U):
    for mode in (IMM, QUE, LAT):
        E, st, sig, args = run_emit_setup(U, mode)
        q0 = st.d(st.f(sig, "_emit_queue"))
        qref = st.f(sig, "_emit_queue")
        limit = 300
        outs = U.run(st, f"{SIG}:SignalInstance._run_emit_loop", [sig, args])
        U.must_fail("precondition satisfiable", st, z3.BoolVal(False))
        for kind, s, v in outs:
            ran = s.ghost["ran"]
            q = s.d(qref)
            d0 = depth(st, sig)
            pending = q0.zn() >= 1
            if ran == 0:
                if kind == "raise":
                    U.oblige("only the recursion limit refuses an emission before delivery", s,
                             z3.And(d0 >= limit, z3.BoolVal(U.exc_is(s, v, "RecursionError"))))
                    U.frame("refused emission changes nothing", st, s, {("g", "raised")})
                else:
                    U.oblige("an emission made while another is pending is queued behind it", s,
                             z3.And(pending, lib.same_seq(E, s, q, seq_append(q0, args))))
                    U.frame("queued emission", st, s, {("d", qref.oid), ("g", "raised")})
                continue
            U.oblige("delivery happens once, and only when nothing is pending", s, z3.And(z3.Not(pending), ran == 1))
            U.oblige("depth restored after an emission", s, depth(s, sig) == d0)
            U.oblige("queue empty after an emission", s, q.zn() == 0)
            U.oblige("nested emission stays visible to the enclosing one through the maximum depth", s,
                     z3.If(d0 > 0, maxdepth(s, sig) > d0, maxdepth(s, sig) == 0))
            U.oblige("current emitter restored after an emission", s, lib.same(E, s, current_emitter(E, s), current_emitter(E, st)))
            U.frame("_run_emit_loop", st, s, {("d", qref.oid), ("g", "raised"), ("g", "ran"),
                    ("f", sig.oid, "_max_recursion_depth")})
            if kind == "ret":
                U.oblige("a callback's exception is not swallowed", s, z3.BoolVal("raised" not in s.ghost))
                continue
            U.oblige("an exception leaves only if a callback raised", s, z3.BoolVal("raised" in s.ghost))
            orig = s.ghost.get("raised")
            if orig is None:
                continue
            check_wrapping(U, s, v, orig, sig)


def check_wrapping(U, s, v, orig, sig):
    E = U.E
    cause = s.obj(v).fields.get("__cause__")
    if U.exc_is(s, orig, "RecursionError"):
        U.oblige("RecursionError from a callback surfaces as RecursionError caused by it", s,
                 z3.BoolVal(U.exc_is(s, v, "RecursionError") and cause == orig))
    elif U.exc_is(s, orig, ELE):
        U.oblige("a nested EmitLoopError passes through unchanged", s, z3.BoolVal(v == orig))
    elif U.exc_is(s, orig, "Exception"):
        U.oblige("a callback's exception surfaces as EmitLoopError caused by it", s,
                 z3.BoolVal(U.exc_is(s, v, ELE) and cause == orig))
    else:
        U.oblige("BaseException (KeyboardInterrupt, SystemExit) propagates unchanged", s, z3.BoolVal(v == orig))


@unit("C06", "an EmitLoopError can always be made, whatever the objects shown in its message do: it is caused by the exception it is made for", ["EmitLoopError.__init__"])
def u_emit_loop_error(U):
    E = U.E
    EXM = ELE.split(":")[0]

    def fault(E, st, ctx):
        s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
        ctx.sink.append((s, e))

    def wild(E, st, ctx):
        """an object about which nothing is known: anything done with it may fail"""
        fault(E, st, ctx)
        return [(st, SV(fresh_v("wild"), "wild"))]
    E.user_attr = lambda E, st, v, name, ctx, missing: wild(E, st, ctx) if v.cls in ("wild", "exc_type") and name != "__name__" else None
    E.schema[("wild", "binop")] = lambda E, st, op, a, b, ctx: wild(E, st, ctx)
    E.schema[("wild", "()")] = lambda E, st, f, ca, ctx: wild(E, st, ctx)
    E.schema[("wild", "==")] = None

    def truth(E, st, v, ctx):
        fault(E, st, ctx)
        return [(st, fresh_bool("bool"))]
    E.schema[("wild", "truth")] = truth

    def on_format(E, st, v, conv, ctx):
        if not (isinstance(v, (str, int, bool)) or v is None or isinstance(v, SV) and v.cls in ("str", "int")):
            fault(E, st, ctx)
    E.on_format = on_format

    def message(E, st, ca, ctx, fn):
        fault(E, st, ctx)
        return [(st, SV(fresh_v("message"), "str"))]
    E.stubs[f"{EXM}:_build_psygnal_exception_msg"] = message
    E.assumptions.add("building the message of an EmitLoopError raises, if anything, an Exception; the name of an exception's class is a string")
    for given in (True, False):
        st = St()
        exc = SV(fresh_v("exc"), "wild")
        E.schema[("emitter", "instance")] = "wild"
        E.schema[("emitter", "name")] = "str"
        sig = SV(fresh_v("signal"), "emitter") if given else None
        depth, mode = SInt(fresh_int("depth")), SV(fresh_v("reemission"), "str")
        q = fresh_seq("emit_queue")
        st = st.assume(q.zn() >= 0)
        st, qr = E.new_list(st, q)
        if given:
            st = st.assume(sig.t != V.none)
        for kw in ({}, {"recursion_depth": depth, "reemission": mode, "emit_queue": qr}):
            s0, err = E.alloc(st, E.loader.cls(EXM, "EmitLoopError"), {"__cause__": None, "args": ()}, kind="exc")
            fn = BM(E.class_attr_fn(s0, err, "__init__"), err)
            for kind, s, v in U.run(s0, fn, [exc, sig], kw):
                U.oblige("making it does not fail", s, z3.BoolVal(kind == "ret"))
                U.oblige("it is caused by the exception given", s, lib.same(E, s, s.obj(err).fields.get("__cause__"), exc))
                U.frame("EmitLoopError", s0, s, {("f", err.oid, "__cause__"), ("f", err.oid, "args")})
    U.must_fail("reachable", st, z3.BoolVal(False))
