"""C24: one signal used by several threads (rely/guarantee over the signal's lock).

Guarded state: the list of connections, the emission queue, the recursion depths.  Rely: whenever the calling thread does not hold
the lock, the other threads may leave the guarded state in any condition at all; when the lock is free (at the moment the calling
thread takes it) no emission is in progress (queue empty, depths 0).  Guarantee: the calling thread changes the guarded state only
while holding the lock, and gives the lock back with no emission in progress.  The ghost `secs` lists the calling thread's critical
sections: (connections when the lock was taken, connections when it was given back).  An operation is serialised when one
of its sections has exactly the operation's sequential effect on what that section found, and the others have none; mutual exclusion
then makes every history equivalent to one in which the operations run one after another."""
from .common import *
from . import slots as S
from .slots import absent, connect_setup, first_index, key_of, lockdepth, setup, append_stub, binding_stub, queued_stub, inserted, WKEY
from .emit import inner_stub, with_emitter, depth, maxdepth

GUARDED = ("_slots", "_emit_queue")


def unlocked(E, st, sig):
    """the guarded state while other threads are at it: anything"""
    a = arb_seq(weak_callback_cls(E), "slots_by_others")
    q = arb_seq(None, "queue_by_others")
    d, m = fresh_int("depth_by_others"), fresh_int("max_by_others")
    st = st.assume(a.zn() >= 0, q.zn() >= 0, d >= 0, m >= 0)
    k = z3.Int("k_private")
    shared = {x for x, _ in st.ghost.get("added", ())}
    for w in st.ghost.get("wcalls", ()):        # a callback object made by this thread is unknown to the others until it is connected
        if w[0] not in shared:
            st = st.assume(z3.ForAll([k], to_term(a.at(k)) != to_term(w[0]), patterns=[to_term(a.at(k))]))
    st = st.setd(st.f(sig, "_slots"), a).setd(st.f(sig, "_emit_queue"), q)
    return st.setf(sig, "_recursion_depth", SInt(d)).setf(sig, "_max_recursion_depth", SInt(m))


def share(U, E, st, sig):
    """the signal is used by other threads too; the calling thread does not hold the lock"""
    lk = st.f(sig, "_lock")
    st = unlocked(E, st.setf(lk, "depth", 0).g(secs=()), sig)

    def on_lock(E, st, l, what):
        if l != lk:
            return st
        if not z3.is_int_value(z3.simplify(zi(st.f(l, "depth")))) or z3.simplify(zi(st.f(l, "depth"))).as_long() != 0:
            return st
        if what == "acquire":
            st = unlocked(E, st, sig)
            st = st.setd(st.f(sig, "_emit_queue"), Seq.of([])).setf(sig, "_recursion_depth", 0).setf(sig, "_max_recursion_depth", 0)
            return st.g(secs=st.ghost["secs"] + ((st.d(st.f(sig, "_slots")), None),))
        E.obligation("the lock is given back with no emission in progress", st, z3.And(st.d(st.f(sig, "_emit_queue")).zn() == 0, zi(st.f(sig, "_recursion_depth")) == 0))
        secs = st.ghost["secs"]
        return unlocked(E, st.g(secs=secs[:-1] + ((secs[-1][0], st.d(st.f(sig, "_slots"))),)), sig)
    E.on_lock = on_lock

    def on_write(E, st, o, name, v, ctx):
        if (o == sig and name in GUARDED + ("_recursion_depth", "_max_recursion_depth")) or (name == "[]" and any(st.f(sig, g) == o for g in GUARDED)):
            E.obligation("connections and emission state are only changed while the lock is held", st, lockdepth(st, sig) > 0)
        if o == sig and name == "_lock":
            E.obligation("the lock of a signal stays the same", st, z3.BoolVal(v == lk))
        return st
    E.on_attr_write = on_write
    return st


def none_changed(E, s, secs, but=None):
    return z3.And(*[lib.same_seq(E, s, r, a) for i, (a, r) in enumerate(secs) if i != but])


def some(E, s, secs, f):
    """one section has the effect f(E, s, found, left), and the others none"""
    return z3.Or(*[z3.And(f(a, r), none_changed(E, s, secs, i)) for i, (a, r) in enumerate(secs)])


def closed(U, what, s, sig, secs):
    U.oblige(f"{what}: the lock is given back", s, z3.And(lockdepth(s, sig) == 0, z3.BoolVal(all(r is not None for _, r in secs))))


@unit(["C24"], "connect, with other threads at the same signal: the entry goes into the connections as they are when it is added; `unique` is decided on those", ["SignalInstance.connect", "SignalInstance._slot_index", "SignalInstance.__contains__"], timeout=120)
def u_connect(U):
    E, st, sig, slots, slot, mx, isqt = connect_setup(U)
    E.stubs["psygnal._queue:QueuedCallback"] = queued_stub
    st = share(U, E, st, sig)
    t = WKEY(slot.t)
    for uname, u in (("False", False), ("True", True), ("raise", "raise")):
        for thread in (None, "main"):
            for nargs in (True, False):
                what = f"connect(unique={uname})"
                kw = {"unique": u, "thread": thread, "check_nargs": nargs, "check_types": SBool(fresh_bool("ct")), "priority": SInt(fresh_int("prio"))}
                for kind, s, v in U.run(st, f"{SIG}:SignalInstance.connect", [sig, slot], kw):
                    secs, added = s.ghost["secs"], s.ghost.get("added", ())
                    closed(U, what, s, sig, secs)
                    if kind == "raise" or not added:
                        U.oblige(f"{what}: no connection of another thread is lost when it adds nothing", s, none_changed(E, s, secs))
                        dup = z3.Or(*[z3.Not(absent(E, s, a, t)) for a, _ in secs])
                        why = z3.And(z3.BoolVal(bool(u)), dup)
                        if kind == "raise":
                            why = z3.Or(z3.BoolVal(s.ghost.get("refused", False)), z3.Not(lib.callable_p(slot.t)), why)
                        U.oblige(f"{what}: it adds nothing only because the callback is connected (or refused)", s, why)
                        continue
                    new, p = added[0]
                    n = fresh_int("k")
                    # the ghost insertion position p comes from the contract of _append_slot
                    U.oblige(f"{what}: exactly one entry more than it found when it took the lock, the others kept; with unique, none was there", s,
                             some(E, s, secs, lambda a, r: z3.And(z3.BoolVal(len(added) == 1), lib.same_seq(E, s, r, seq_insert(a, p, new)), z3.Or(z3.BoolVal(not u), absent(E, s, a, t)))))
    U.must_fail("satisfiable", st, z3.BoolVal(False))


@unit(["C24"], "disconnect, with other threads at the same signal: removes one entry of the connections as they are when it does, and no other", ["SignalInstance.disconnect", "SignalInstance._remove_slot", "SignalInstance._slot_index"], timeout=120)
def u_disconnect(U):
    E, st, sig, slots, slot = setup(U)
    st = share(U, E, st, sig)
    t = WKEY(slot.t)
    mo = fresh_bool("missing_ok")
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.disconnect", [sig, slot], {"missing_ok": SBool(mo)}):
        secs = s.ghost["secs"]
        closed(U, "disconnect", s, sig, secs)
        removed_or_unknown(U, E, "disconnect", s, secs, t, kind, v, mo)
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.disconnect", [sig], {"missing_ok": SBool(mo)}):
        secs = s.ghost["secs"]
        closed(U, "disconnect()", s, sig, secs)
        U.oblige("disconnect(): leaves no connection", s, z3.And(z3.BoolVal(kind == "ret"), z3.Or(*[r.zn() == 0 for _, r in secs])))
    U.must_fail("satisfiable", st, z3.BoolVal(False))


def removed_or_unknown(U, E, what, s, secs, t, kind, v, mo, refused=z3.BoolVal(False)):
    unknown = z3.And(none_changed(E, s, secs), z3.Or(*[absent(E, s, a, t) for a, _ in secs]))
    if kind == "raise":
        U.oblige(f"{what}: fails only when the callback was not connected, and changes nothing", s, z3.Or(z3.And(refused, none_changed(E, s, secs)), z3.And(U.exc_is(s, v, "ValueError"), z3.Not(mo), unknown)))
        return
    # witness: for each section, the index of the first equal entry in what it found
    idx = [fresh_int("first") for _ in secs]
    s2 = s.assume(*[z3.Or(absent(E, s, a, t), first_index(E, s, a, t, i)) for (a, _), i in zip(secs, idx)])
    gone = z3.Or(*[z3.And(z3.Not(absent(E, s2, a, t)), lib.same_seq(E, s2, r, seq_delete(a, i)), none_changed(E, s2, secs, k)) for k, ((a, r), i) in enumerate(zip(secs, idx))])
    U.oblige(f"{what}: it removes exactly the earliest equal entry of the connections it found, or found none (and may ignore that)", s2, z3.Or(gone, z3.And(mo, unknown)))


@unit(["C24"], "`in`, with other threads at the same signal: the answer for one moment, changing nothing", ["SignalInstance.__contains__", "SignalInstance._slot_index"])
def u_contains(U):
    E, st, sig, slots, slot = setup(U)
    st = share(U, E, st, sig)
    t = WKEY(slot.t)
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.__contains__", [sig, slot]):
        secs = s.ghost["secs"]
        closed(U, "in", s, sig, secs)
        U.oblige("`in` is true of the connections at one moment and changes nothing", s, z3.And(z3.BoolVal(kind == "ret"), none_changed(E, s, secs), z3.Or(*[zb(v) == z3.Not(absent(E, s, a, t)) for a, _ in secs])))


def run_binding(U, tag, cls, connect, disconnect):
    E, st, sig, slots, _ = setup(U)
    E.stubs[f"{SIG}:SignalInstance._append_slot"] = append_stub()
    h, K = binding_stub(tag)
    E.stubs[f"{WCB}:{cls}"] = h
    st = share(U, E, st, sig)
    obj, attr = SV(fresh_v("obj"), "object"), SV(fresh_v("attr"), "str")
    E.stubs["builtins.hasattr"] = lambda E, st, ca, ctx, f: [(st, SBool(fresh_bool("has_attr")))]
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.{connect}", [sig, obj, attr], {"priority": SInt(fresh_int("prio"))}):
        secs, added = s.ghost["secs"], s.ghost.get("added", ())
        closed(U, connect, s, sig, secs)
        if kind == "raise":
            U.oblige(f"{connect}: a refused binding changes nothing", s, z3.And(z3.BoolVal(not added), none_changed(E, s, secs)))
            continue
        U.oblige(f"{connect}: exactly one entry more than it found when it took the lock", s,
                 some(E, s, secs, lambda a, r: lib.same_seq(E, s, r, seq_insert(a, added[0][1], added[0][0]))) if len(added) == 1 else z3.BoolVal(False))
    mo = fresh_bool("missing_ok")
    t = K(obj.t, attr.t)
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.{disconnect}", [sig, obj, attr], {"missing_ok": SBool(mo)}):
        secs = s.ghost["secs"]
        closed(U, disconnect, s, sig, secs)
        refused = z3.BoolVal(kind == "raise" and (s.ghost.get("refused", False) or bool(U.exc_is(s, v, "TypeError"))))
        if not secs:
            U.oblige(f"{disconnect}: refused before it looks at the connections", s, refused)
            continue
        removed_or_unknown(U, E, disconnect, s, secs, t, kind, v, mo, refused)
    U.must_fail("satisfiable", st, z3.BoolVal(False))


@unit(["C24"], "connect_setattr / disconnect_setattr, with other threads at the same signal", ["SignalInstance.connect_setattr", "SignalInstance.disconnect_setattr"], timeout=90)
def u_setattr(U):
    run_binding(U, "setattr", "WeakSetattr", "connect_setattr", "disconnect_setattr")


@unit(["C24"], "connect_setitem / disconnect_setitem, with other threads at the same signal", ["SignalInstance.connect_setitem", "SignalInstance.disconnect_setitem"], timeout=90)
def u_setitem(U):
    run_binding(U, "setitem", "WeakSetitem", "connect_setitem", "disconnect_setitem")


@unit(["C24"], "an emission, with other threads at the same signal: delivered in one critical section, whatever the others are doing; a callback may use the signal again",
      ["SignalInstance._run_emit_loop", "Signal._emitting"], timeout=90)
def u_emit(U):
    for mode in (IMM, QUE, LAT):
        E = U.E
        base_schema(E)
        st, sig = signal_instance(E, St(), mode)
        st = with_emitter(E, st)
        st = share(U, E, st, sig)
        args = SV(fresh_v("args"), None)
        st = st.g(want_args=args, ran=0)

        def inner(E, st, ca, ctx, fn):
            g = st.ghost
            if not g["secs"]:
                E.obligation("callbacks run with the lock held, for the emission at hand", st, z3.BoolVal(False))
                return []
            E.obligation("callbacks run with the lock held, for the emission at hand", st, z3.And(lockdepth(st, sig) == 1, z3.BoolVal(len(g["secs"]) == 1 and g["secs"][0][1] is None and ca.pos[0] == sig)))
            q = st.d(st.f(sig, "_emit_queue"))
            E.obligation("nothing of another thread's emission is delivered with it", st, z3.And(q.zn() == 1, lib.same(E, st, q.at(0), args), depth(st, sig) == 1))
            E.obligation("it is delivered to the connections as they are when it takes the lock", st, lib.same_seq(E, st, st.d(st.f(sig, "_slots")), g["secs"][0][0]))
            # callbacks emit, connect and disconnect (in this thread: the lock stays held)
            d = depth(st, sig)
            st = unlocked(E, st, sig).setf(sig, "_recursion_depth", mkint(d)).g(ran=g["ran"] + 1)
            st = st.assume(maxdepth(st, sig) >= d)
            raise_user(E, st, ctx)
            return [(st, None)]
        for f in ("immediate", "queued", "latest_only"):
            E.stubs[f"{SIG}:SignalInstance._run_emit_loop_{f}"] = inner
        for kind, s, v in U.run(st, f"{SIG}:SignalInstance._run_emit_loop", [sig, args]):
            secs = s.ghost["secs"]
            closed(U, f"emission [{mode}]", s, sig, secs)
            U.oblige(f"[{mode}] every emission is delivered: it waits for the others, and is not refused or lost because of them", s, z3.BoolVal(s.ghost["ran"] == 1 and len(secs) == 1))
            U.oblige(f"[{mode}] it fails only when a callback does", s, z3.BoolVal((kind == "raise") == ("raised" in s.ghost)))
        U.must_fail("satisfiable", st, z3.BoolVal(False))
    E.assumptions.add("C24: emit() reaches _run_emit_loop with its arguments (contracts of emit in sigcheck.py/emit.py); the loops over the connections run inside the critical section (contracts of the loops in emit.py)")


@unit(["C24"], "every signal has a lock of its own that its holder may take again", ["SignalInstance.__init__", "SignalInstance.__setstate__"])
def u_lock(U):
    from .descriptor import desc_setup
    E, st, opts = desc_setup(U)
    cls = E.loader.cls(SIG, "SignalInstance")
    c = U.ctx(SIG)
    outs = E.instantiate(st, cls, CallArgs([SV(fresh_v("sig"), "Signature")], None, dict(opts)), c)
    U.oblige("a signal can be made", st, z3.BoolVal(len(outs) > 0 and not c.sink))
    for s, si in outs:
        lk = s.f(si, "_lock")
        ok = isinstance(lk, Ref) and lk.oid not in st.heap and s.obj(lk).kind == "rlock"
        U.oblige("a new signal's lock is new, re-entrant and free", s, z3.BoolVal(ok and s.obj(lk).fields.get("reentrant") is not False and s.f(lk, "depth") == 0))
    st, old = signal_instance(E, st, IMM)
    st, new = E.alloc(st, cls, {})
    st, state = pickled_state(U, E, st, old)
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.__setstate__", [new, state]):
        U.oblige("__setstate__ does not raise", s, kind == "ret")
        lk = s.obj(new).fields.get("_lock")
        ok = isinstance(lk, Ref) and lk.oid not in st.heap and s.obj(lk).kind == "rlock"
        U.oblige("a restored signal's lock is new, re-entrant and free", s, z3.BoolVal(ok and s.obj(lk).fields.get("reentrant") is not False and s.f(lk, "depth") == 0))


def pickled_state(U, E, st, sig):
    E.schema[("isinstance", "psygnal._weak_callback:StrongFunction")] = lambda E, st, v: z3.Function("is_strong_function", V, z3.BoolSort())(to_term(v))
    E.schema[("instref", "()")] = lambda E, st, f, ca, ctx: [(st, SV(fresh_v("owner"), "instance"))]
    E.stubs["warnings.warn"] = lambda E, st, ca, ctx, f: [(st, None)]
    kind, s, state = [o for o in U.run(st, f"{SIG}:SignalInstance.__getstate__", [sig]) if o[0] == "ret"][0]
    return s, state
