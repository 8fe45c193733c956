"""C03, C24 (and parts of C04, C08): the list of connections.

Ghost vocabulary: key(x) = the identity under which a callback is known (WeakCallback._key); two
callbacks are "equal" iff their keys are.  `weak_callback(slot)` is used through its contract
(contracts/weak.py): the result's key is a function of the callable only.
"""
from .common import *

KEY = lib.attr_fun("_key")
WKEY = z3.Function("key_of_callable", V, V)      # key weak_callback gives to a callable


def key_of(E, st, x):
    """key term of a slot value"""
    if isinstance(x, Ref):
        return to_term(st.f(x, "_key"))
    return KEY(to_term(x))


def slots_schema(E):
    base_schema(E)
    E.schema.update({
        ("WeakCallback", "_key"): "str",
        ("Signature", "parameters"): None,
    })


def wcb_stub(may_raise=False, log="wcalls"):
    """Contract of weak_callback(cb, ...) (units in contracts/weak.py): a WeakCallback whose key
    depends only on the callable, carrying the priority given; an existing one is returned as is."""
    def h(E, st, ca, ctx, fn):
        slot = ca.pos[0]
        if may_raise:
            for nm in ("TypeError", "NotImplementedError", "user.Exception"):
                s, e = E.new_exc(st, exc_cls(E, nm), ())
                ctx.sink.append((s.g(refused=True), e))
        prio = ca.kw.get("priority", 0)
        st, r = E.alloc(st, weak_callback_cls(E), {"_key": SV(WKEY(to_term(slot)), "str"), "priority": prio})
        st = st.g(**{log: st.ghost.get(log, ()) + ((r, slot, dict(ca.kw), list(ca.pos)),)})
        return [(st, r)]
    return h


def first_index(E, st, slots, t, idx):
    """idx is the first index of a slot whose key is t (formula), idx a z3 Int"""
    j = z3.Int("j_fi")
    return z3.And(0 <= idx, idx < slots.zn(), key_of(E, st, slots.at(idx)) == t,
                  z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < idx), key_of(E, st, slots.at(j)) != t)))


def absent(E, st, slots, t):
    j = z3.Int("j_ab")
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < slots.zn()), key_of(E, st, slots.at(j)) != t))


def lockdepth(st, sig):
    return zi(st.f(st.f(sig, "_lock"), "depth"))


def watch_lock(U, sig, guarded=("_slots", "_emit_queue")):
    """Every write to the connection list (or the emission queue) happens while the lock is held."""
    E = U.E

    def h(E, st, o, name, v, ctx):
        hit = (o == sig and name in guarded) or (name == "[]" and any(st.f(sig, g) == o for g in guarded))
        if hit:
            E.obligation("connections and pending emissions only change while the signal's lock is held", st,
                         lockdepth(st, sig) > 0)
        return st
    E.on_attr_write = h


def setup(U, mode=IMM):
    E = U.E
    slots_schema(E)
    slots = arb_seq(weak_callback_cls(E), "slots")
    st, sig = signal_instance(E, St(), mode, slots=slots)
    E.stubs[f"{WCB}:weak_callback"] = wcb_stub()
    watch_lock(U, sig)
    slot = SV(fresh_v("slot"), "callable")
    st = st.assume(slot.t != V.none)
    return E, st, sig, slots, slot


def slot_frame(U, what, st, s, sig, *extra):
    U.frame(what, st, s, {("d", st.f(sig, "_slots").oid), ("g", "raised"), ("g", "wcalls"), ("g", "refused"), *extra})


@unit(["C03"], "_slot_index is the first connected callback equal to the slot, -1 when there is none",
      ["SignalInstance._slot_index", "WeakCallback.__eq__"])
def u_slot_index(U):
    E, st, sig, slots, slot = setup(U)
    t = WKEY(slot.t)
    U.must_fail("precondition satisfiable", st, z3.BoolVal(False))
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance._slot_index", [sig, slot]):
        U.oblige("_slot_index does not raise", s, kind == "ret")
        if kind != "ret":
            continue
        i = zi(v)
        U.oblige("_slot_index: -1 exactly when not connected, else the earliest equal entry", s,
                 z3.Or(z3.And(i == -1, absent(E, s, slots, t)), first_index(E, s, slots, t, i)))
        U.oblige("_slot_index changes nothing", s, lib.same_seq(E, s, s.d(s.f(sig, "_slots")), slots))
        U.frame("_slot_index", st, s, {("g", "wcalls")})


@unit(["C03"], "`cb in signal` and len(signal)", ["SignalInstance.__contains__", "SignalInstance.__len__"])
def u_contains(U):
    E, st, sig, slots, slot = setup(U)
    t = WKEY(slot.t)
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.__contains__", [sig, slot]):
        U.oblige("`in` does not raise", s, kind == "ret")
        if kind == "ret":
            j = fresh_int("j")
            U.oblige("`in` is False only when no equal callback is connected", s, z3.Or(zb(v), absent(E, s, slots, t)))
            U.oblige("`in` is True only when an equal callback is connected", s,
                     z3.Or(z3.Not(zb(v)), z3.Not(absent(E, s, slots, t))))
            U.frame("__contains__", st, s, {("g", "wcalls")})
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.__len__", [sig]):
        U.oblige("len is the number of connections", s, z3.And(kind == "ret", zi(v) == slots.zn()))
        U.frame("__len__", st, s, ())


@unit(["C03", "C24"], "disconnect removes exactly the earliest equal entry, all of them without argument, or reports",
      ["SignalInstance.disconnect", "SignalInstance._remove_slot", "SignalInstance._slot_index"])
def u_disconnect(U):
    E, st, sig, slots, slot = setup(U)
    t = WKEY(slot.t)
    mo = fresh_bool("missing_ok")
    n = slots.zn()
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.disconnect", [sig, slot], {"missing_ok": SBool(mo)}):
        now = s.d(s.f(sig, "_slots"))
        if kind == "raise":
            U.oblige("disconnect raises only ValueError, for an unknown callback, with missing_ok=False", s,
                     z3.And(U.exc_is(s, v, "ValueError"), z3.Not(mo), absent(E, s, slots, t)))
            U.oblige("a failing disconnect changes nothing", s, lib.same_seq(E, s, now, slots))
        else:
            idx = fresh_int("idx")
            U.oblige("disconnect of an unknown callback is silent only with missing_ok", s,
                     z3.Or(mo, z3.Not(absent(E, s, slots, t))))
            U.oblige("disconnect of an unknown callback changes nothing", s,
                     z3.Implies(absent(E, s, slots, t), lib.same_seq(E, s, now, slots)))
            s2 = s.assume(first_index(E, s, slots, t, idx))
            U.oblige("disconnect removes exactly one entry, the earliest equal one", s2,
                     lib.same_seq(E, s2, now, seq_delete(slots, idx)))
        U.oblige("lock released", s, lockdepth(s, sig) == lockdepth(st, sig))
        slot_frame(U, "disconnect", st, s, sig)
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.disconnect", [sig], {"missing_ok": SBool(mo)}):
        U.oblige("disconnect() removes every connection and does not raise", s,
                 z3.And(kind == "ret", s.d(s.f(sig, "_slots")).zn() == 0))
        U.oblige("lock released", s, lockdepth(s, sig) == lockdepth(st, sig))
        slot_frame(U, "disconnect()", st, s, sig)


@unit(["C03", "C08"], "_try_discard removes the earliest entry equal to the callback, nothing else",
      ["SignalInstance._try_discard", "SignalInstance._remove_slot", "WeakCallback.__eq__"])
def u_discard(U):
    E, st, sig, slots, slot = setup(U)
    E.on_attr_write = None
    E.assumptions.add("_try_discard called from a weakref finalizer runs without the signal's lock (not part of C24)")
    cb = SV(fresh_v("deadcb"), weak_callback_cls(E))
    t = KEY(cb.t)
    mo = fresh_bool("missing_ok")
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance._try_discard", [sig, cb], {"missing_ok": SBool(mo)}):
        now = s.d(s.f(sig, "_slots"))
        if kind == "raise":
            U.oblige("_try_discard raises only ValueError, when nothing equal is connected and missing_ok is False", s,
                     z3.And(U.exc_is(s, v, "ValueError"), z3.Not(mo), absent(E, s, slots, t)))
            U.oblige("a failing _try_discard changes nothing", s, lib.same_seq(E, s, now, slots))
        else:
            idx = fresh_int("idx")
            U.oblige("silent only with missing_ok", s, z3.Or(mo, z3.Not(absent(E, s, slots, t))))
            U.oblige("unknown: nothing changes", s, z3.Implies(absent(E, s, slots, t), lib.same_seq(E, s, now, slots)))
            s2 = s.assume(first_index(E, s, slots, t, idx))
            U.oblige("removes exactly the earliest equal entry", s2, lib.same_seq(E, s2, now, seq_delete(slots, idx)))
        slot_frame(U, "_try_discard", st, s, sig)


def inserted(E, s, now, old, new):
    """`now` is `old` with `new` inserted somewhere, and the order of the others kept"""
    k, p = z3.Int("k_ins"), z3.Int("p_ins")
    nt = to_term(new)
    at = lambda k: z3.If(k < p, to_term(old.at(k)), z3.If(k == p, nt, to_term(old.at(k - 1))))
    return z3.And(now.zn() == old.zn() + 1,
                  z3.Exists([p], z3.And(0 <= p, p <= old.zn(),
                            z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= old.zn()), to_term(now.at(k)) == at(k))))))


def append_stub(sig_slots="_slots"):
    """Contract of _append_slot (proved in contracts/emit.py): one entry more, the others in order."""
    def h(E, st, ca, ctx, fn):
        self_, slot = ca.pos[0], (ca.pos[1] if len(ca.pos) > 1 else ca.kw["slot"])
        E.obligation("connections and pending emissions only change while the signal's lock is held", st, lockdepth(st, self_) > 0)
        ref = st.f(self_, sig_slots)
        old = st.d(ref)
        p = fresh_int("inspos")
        st = st.assume(0 <= p, p <= old.zn())
        st = st.g(added=st.ghost.get("added", ()) + ((slot, p),))
        return [(st.setd(ref, seq_insert(old, p, slot)), None)]
    return h


def connect_setup(U, thread=None):
    E, st, sig, slots, slot = setup(U)
    E.stubs[f"{WCB}:weak_callback"] = wcb_stub(may_raise=True)
    E.stubs[f"{SIG}:SignalInstance._append_slot"] = append_stub()
    sigp = SV(fresh_v("slotsig"), "Signature")
    mx = SV(fresh_v("max_from_sig"))
    isqt = fresh_bool("isqt")

    def check_nargs(E, st, ca, ctx, fn):
        for nm in ("ValueError", "TypeError"):
            s, e = E.new_exc(st, exc_cls(E, nm), ())
            ctx.sink.append((s.g(refused=True), e))
        E.obligation("argument check is made against the signal's signature", st,
                     z3.And(lib.same(E, st, ca.pos[1], slot), lib.same(E, st, ca.pos[2], st.f(sig, "_signature"))))
        st, r = st.g(nargs_checked=True), None
        return [(st, (ite(fresh_bool("nosig"), None, sigp), mx, SBool(isqt)))]

    def sigof(E, st, ca, ctx, fn):
        s, e = E.new_exc(st, exc_cls(E, "ValueError"), ())
        ctx.sink.append((s.g(refused=True), e))
        return [(st, sigp)]

    def types_match(E, st, ca, ctx, fn):
        s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
        ctx.sink.append((s.g(refused=True), e))
        b = fresh_bool("types_ok")
        return [(st.g(types_checked=True, types_ok=b), SBool(b))]

    def conn_err(E, st, ca, ctx, fn):
        s, e = E.new_exc(st, exc_cls(E, "ValueError"), ())
        ctx.sink.append((s.g(refused=True), e))
        return []
    E.stubs[f"{SIG}:SignalInstance._check_nargs"] = check_nargs
    E.stubs[f"{SIG}:SignalInstance._raise_connection_error"] = conn_err
    E.stubs[f"{SIG}:signature"] = sigof
    E.stubs[f"{SIG}:_parameter_types_match"] = types_match
    return E, st, sig, slots, slot, mx, isqt


@unit(["C03", "C04", "C24", "C12"], "connect adds exactly one entry for the slot, or refuses and changes nothing",
      ["SignalInstance.connect"], timeout=120)
def u_connect(U):
    E, st, sig, slots, slot, mx, isqt = connect_setup(U)
    t = WKEY(slot.t)
    cn, ct = SV(fresh_v("check_nargs")), SV(fresh_v("check_types"))
    uniq = {"False": False, "True": True, "raise": "raise"}
    prio = SInt(fresh_int("prio"))
    pre = st
    for uname, u in uniq.items():
        for thread in (None, "main"):
            for nargs in (None, True, False):
                for explicit in (False, True):
                    run_connect(U, E, pre, sig, slots, slot, mx, isqt, t, u, uname, thread, nargs, explicit, prio)


def run_connect(U, E, st, sig, slots, slot, mx, isqt, t, u, uname, thread, nargs, explicit, prio):
    pre = st
    maxa = SInt(fresh_int("max_args")) if explicit else None
    ct = SBool(fresh_bool("check_types"))
    ore = SV(fresh_v("on_ref_error"), "str")
    thr = SV(fresh_v("thread"), "thread") if thread else None
    if thread:
        st = st.assume(thr.t != V.none)
    kw = {"unique": u, "thread": thr, "check_nargs": nargs, "check_types": ct, "max_args": maxa, "priority": prio,
          "on_ref_error": ore}
    E.stubs[f"psygnal._queue:QueuedCallback"] = queued_stub
    outs = U.run(st, f"{SIG}:SignalInstance.connect", [sig, slot], kw)
    tag = f"[unique={uname}]"
    for kind, s, v in outs:
        now = s.d(s.f(sig, "_slots"))
        added = s.ghost.get("added", ())
        refused = s.ghost.get("refused", False)
        U.oblige("connect leaves the lock as it was", s, lockdepth(s, sig) == lockdepth(pre, sig))
        slot_frame(U, "connect", pre, s, sig, ("g", "added"), ("g", "nargs_checked"), ("g", "types_checked"), ("g", "types_ok"))
        if kind == "raise":
            U.oblige(f"a refused connect changes nothing {tag}", s, z3.And(len(added) == 0, lib.same_seq(E, s, now, slots)))
            U.oblige(f"connect refuses only for a duplicate with unique='raise', or when a check or weak_callback does {tag}", s,
                     z3.BoolVal(True) if refused else z3.Or(z3.And(U.exc_is(s, v, "TypeError"), z3.Not(lib.callable_p(slot.t))),
                     z3.And(U.exc_is(s, v, "ValueError"), z3.BoolVal(u == "raise"), z3.Not(absent(E, s, slots, t)))))
            continue
        U.oblige("connect returns the slot (usable as a decorator)", s, lib.same(E, s, v, slot))
        if not added:
            U.oblige(f"nothing is added only when unique=True and an equal callback is connected {tag}", s,
                     z3.And(z3.BoolVal(u is True), z3.Not(absent(E, s, slots, t))))
            U.oblige(f"then the connections are unchanged {tag}", s, lib.same_seq(E, s, now, slots))
            continue
        U.oblige(f"with unique, nothing is added for a connected callback {tag}", s,
                 z3.Or(z3.BoolVal(not u), absent(E, s, slots, t)))
        U.oblige("exactly one entry is added", s, z3.And(len(added) == 1, now.zn() == slots.zn() + 1))
        new = added[0][0]
        U.oblige("the entry added is for the slot given", s, key_of(E, s, new) == t)
        U.oblige("the entry has the priority given", s, zi(s.f(new, "priority")) == zi(prio))
        calls = s.ghost["wcalls"]
        w = [c for c in calls if c[0] == s.f(new, "_inner")] if "_inner" in s.obj(new).fields else [c for c in calls if c[0] == new]
        U.oblige("the entry was made by weak_callback, queued only when a thread was asked for", s,
                 z3.BoolVal(len(w) == 1 and (("_inner" in s.obj(new).fields) == (thread is not None))))
        if len(w) != 1:
            continue
        if "_inner" in s.obj(new).fields:
            U.oblige("it is queued for the thread asked for", s, lib.same(E, s, s.f(new, "_thr"), thr))
        _, _, ckw, cpos = w[0]
        checked = bool(s.ghost.get("nargs_checked", False))
        want_check = z3.BoolVal(nargs) if nargs is not None else zb(pre.f(sig, "_check_nargs_on_connect"))
        U.oblige("arguments are checked exactly when asked (per call or per signal) and no max_args is given", s,
                 z3.BoolVal(checked) == z3.And(want_check, z3.BoolVal(not explicit)))
        U.oblige("types are checked exactly when asked, and matched", s,
                 z3.And(z3.BoolVal(bool(s.ghost.get("types_checked", False))) == zb(ct), s.ghost.get("types_ok", z3.BoolVal(True))))
        U.oblige("max_args: the explicit one, else what the slot accepts", s,
                 lib.same(E, s, ckw.get("max_args"), maxa if explicit else (mx if checked else None)))
        fin = ckw.get("finalize")
        U.oblige("a dead callback discards itself from this signal", s,
                 z3.BoolVal(isinstance(fin, BM) and fin.self_ == sig and getattr(fin.fn, "qual", "").endswith("._try_discard")))
        U.oblige("on_ref_error is handed on ('ignore' for Qt)", s,
                 z3.If(z3.And(checked, isqt), lib.same(E, s, ckw.get("on_ref_error"), "ignore"),
                       lib.same(E, s, ckw.get("on_ref_error"), ore)) if checked else lib.same(E, s, ckw.get("on_ref_error"), ore))


def queued_stub(E, st, ca, ctx, cls):
    """Contract of QueuedCallback(cb, thread) used by connect: same key and priority as cb."""
    inner = ca.pos[0]
    st, r = E.alloc(st, cls, {"_inner": inner, "_thr": ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("thread"), "_key": st.f(inner, "_key"), "priority": st.f(inner, "priority")})
    return [(st, r)]


# ---------------------------------------------------------------- attribute / item bindings

def binding_stub(tag):
    """Contract of WeakSetattr/WeakSetitem(obj, attr, ...) (contracts/weak.py): key a function of (obj, attr)."""
    K = z3.Function("key_" + tag, V, V, V)

    def h(E, st, ca, ctx, cls):
        s, e = E.new_exc(st, exc_cls(E, "TypeError"), ())       # on_ref_error='raise'
        ctx.sink.append((s.g(refused=True), e))
        obj, attr = ca.pos[0], ca.pos[1]
        st, r = E.alloc(st, cls, {"_key": SV(K(to_term(obj), to_term(attr)), "str"), "priority": ca.kw.get("priority", 0)})
        return [(st.g(wcalls=st.ghost.get("wcalls", ()) + ((r, obj, dict(ca.kw), list(ca.pos)),)), r)]
    return h, K


def run_binding(U, tag, cls, connect, disconnect):
    E, st, sig, slots, _ = setup(U)
    E.stubs[f"{SIG}:SignalInstance._append_slot"] = append_stub()
    h, K = binding_stub(tag)
    E.stubs[f"{WCB}:{cls}"] = h
    obj, attr = SV(fresh_v("obj"), "object"), SV(fresh_v("attr"), "str")
    has = fresh_bool("has_attr")
    E.stubs["builtins.hasattr"] = lambda E, st, ca, ctx, f: [(st, SBool(has))]
    prio = SInt(fresh_int("prio"))
    ore = SV(fresh_v("on_ref_error"), "str")
    pre = st
    for given in (True, False):
        mx = SV(fresh_v("maxargs"))
        kw = {"priority": prio, "on_ref_error": ore}
        if given:
            kw["maxargs"] = mx
            st = st.assume(mx.t != to_term(E.module_value(st, SIG, "_NULL")))
        for kind, s, v in U.run(st, f"{SIG}:SignalInstance.{connect}", [sig, obj, attr], kw):
            now = s.d(s.f(sig, "_slots"))
            added = s.ghost.get("added", ())
            refused = s.ghost.get("refused", False)
            U.oblige(f"{connect}: lock released", s, lockdepth(s, sig) == lockdepth(pre, sig))
            slot_frame(U, connect, pre, s, sig, ("g", "added"))
            if kind == "raise":
                U.oblige(f"{connect}: a refused binding changes nothing", s, z3.And(len(added) == 0, lib.same_seq(E, s, now, slots)))
                U.oblige(f"{connect}: refused only when the object has no such attribute (or cannot be referenced, if asked)", s,
                         z3.Or(z3.BoolVal(refused), z3.Not(has)))
                continue
            U.oblige(f"{connect}: an object without the attribute is refused", s, has)
            U.oblige(f"{connect}: exactly one entry is added and returned", s,
                     z3.And(len(added) == 1, now.zn() == slots.zn() + 1, z3.BoolVal(len(added) == 1 and added[0][0] == v)))
            w = s.ghost.get("wcalls", ())
            U.oblige(f"{connect}: the entry binds the given object and attribute", s, z3.BoolVal(len(w) == 1))
            if len(w) != 1 or len(added) != 1:
                continue
            r, o, ckw, cpos = w[0]
            U.oblige(f"{connect}: the entry binds the given object and attribute", s,
                     z3.And(z3.BoolVal(r == v), key_of(E, s, v) == K(obj.t, attr.t)))
            U.oblige(f"{connect}: priority, max_args and on_ref_error are handed on", s,
                     z3.And(lib.same(E, s, ckw.get("priority", 0), prio), lib.same(E, s, ckw.get("max_args"), mx if given else None),
                            lib.same(E, s, ckw.get("on_ref_error", "warn"), ore)))
            fin = ckw.get("finalize")
            U.oblige(f"{connect}: the binding of a dead object discards itself from this signal", s,
                     z3.BoolVal(isinstance(fin, BM) and fin.self_ == sig and getattr(fin.fn, "qual", "").endswith("._try_discard")))
    # disconnect
    mo = fresh_bool("missing_ok")
    t = K(obj.t, attr.t)
    for kind, s, v in U.run(st, f"{SIG}:SignalInstance.{disconnect}", [sig, obj, attr], {"missing_ok": SBool(mo)}):
        now = s.d(s.f(sig, "_slots"))
        slot_frame(U, disconnect, pre, s, sig)
        U.oblige(f"{disconnect}: lock released", s, lockdepth(s, sig) == lockdepth(pre, sig))
        if kind == "raise":
            ok = z3.And(U.exc_is(s, v, "ValueError"), z3.Not(mo), absent(E, s, slots, t))
            if tag == "setitem":
                ok = z3.Or(ok, z3.And(U.exc_is(s, v, "TypeError"), z3.Not(has)))
            U.oblige(f"{disconnect}: raises only for an unknown binding with missing_ok=False", s, z3.Or(ok, z3.BoolVal(s.ghost.get("refused", False))))
            U.oblige(f"{disconnect}: a failing disconnect changes nothing", s, lib.same_seq(E, s, now, slots))
        else:
            idx = fresh_int("idx")
            U.oblige(f"{disconnect}: unknown binding", s,
                     z3.Implies(absent(E, s, slots, t), z3.And(mo, lib.same_seq(E, s, now, slots))))
            s2 = s.assume(first_index(E, s, slots, t, idx))
            U.oblige(f"{disconnect}: removes exactly the earliest equal entry", s2, lib.same_seq(E, s2, now, seq_delete(slots, idx)))
            w = s.ghost.get("wcalls", ())
            U.oblige(f"{disconnect}: looking up never holds the object nor warns", s,
                     z3.BoolVal(len(w) == 1 and w[0][2].get("on_ref_error") == "ignore" and w[0][2].get("finalize") is None))


@unit(["C03", "C08", "C24"], "connect_setattr / disconnect_setattr",
      ["SignalInstance.connect_setattr", "SignalInstance.disconnect_setattr"])
def u_setattr(U):
    run_binding(U, "setattr", "WeakSetattr", "connect_setattr", "disconnect_setattr")


@unit(["C03", "C08", "C24"], "connect_setitem / disconnect_setitem",
      ["SignalInstance.connect_setitem", "SignalInstance.disconnect_setitem"])
def u_setitem(U):
    run_binding(U, "setitem", "WeakSetitem", "connect_setitem", "disconnect_setitem")
