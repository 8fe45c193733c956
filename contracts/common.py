"""Shared pre-states, ghost state and protocol stubs for the contracts."""
from __future__ import annotations

import z3

from pyvc import lib
from pyvc.engine import CallArgs
from pyvc.values import (BM, Partial, DictC, DictS, Ext, Fn, Obj, Ref, SBool, Seq, SetC, SetS, SInt, St, SV,
                         UNBOUND, Unsupported, V, fresh_bool, fresh_fun, fresh_int, fresh_seq,
                         fresh_v, from_term, intern_id, is_lit, ite, mkbool, mkint, seq_append, seq_concat,
                         seq_delete, seq_insert, seq_sub, to_term, tup_term, zb, zi, zlen)
from pyvc.vc import U, exc_cls, unit

SIG = "psygnal._signal"
WCB = "psygnal._weak_callback"
GRP = "psygnal._group"
ELE = "psygnal._exceptions:EmitLoopError"

IMM, QUE, LAT = "immediate", "queued", "latest-only"
NULL = Ext("psygnal._signal._NULL")

_famid = [0]


def family(prefix="F"):
    """k -> V term of the k-th member of a fresh family of pairwise distinct objects"""
    _famid[0] += 1
    f = z3.IntVal(intern_id(("family", prefix, _famid[0])))
    return lambda k: V.fam(f, zlen(k))


def fam_seq(E, cls, n=None, prefix="F", fam=None):
    """sequence of `n` objects of class `cls` (distinct unless the contract says otherwise)"""
    fam = fam or family(prefix)
    n = fresh_int("n_" + prefix) if n is None else n
    return Seq(n, lambda k: SV(fam(k), cls))


def arb_seq(cls, prefix="s", n=None):
    """arbitrary sequence of objects of class `cls` (repetitions allowed)"""
    return fresh_seq(prefix, cls=cls, n=n)


def weak_callback_cls(E):
    return E.loader.cls(WCB, "WeakCallback")


def base_schema(E):
    inst = lib.attr_fun("__instref__")
    E.schema.update({
        ("WeakCallback", "priority"): "int",
        ("instref", "()"): lambda E, st, f, ca, ctx: [(st, SV(inst(f.t), "inst"))],
    })
    E.stubs[ELE] = emit_loop_error


def emit_loop_error(E, st, ca, ctx, cls):
    """Contract of EmitLoopError(exc, signal, ...): never fails, is caused by exc (unit in contracts/emit.py,
    "an EmitLoopError can always be made")."""
    names = ["exc", "signal", "recursion_depth", "reemission", "emit_queue"]
    f = dict(zip(names, ca.pos))
    f.update(ca.kw)
    return [E.new_exc(st, cls, (), **f)]


def reemission_value(E, st, mode):
    return mode


def new_lock(E, st, depth=0):
    return E.alloc(st, Ext("threading.RLock"), {"depth": depth}, kind="rlock")


def signal_instance(E, st, mode=IMM, slots=None, cls=None, **over):
    """A SignalInstance in an arbitrary state satisfying the class invariant.

    Invariant assumed: recursion depth and its maximum are non-negative, list lengths are."""
    cls = cls or E.loader.cls(SIG, "SignalInstance")
    if slots is None:
        slots = arb_seq(weak_callback_cls(E), "slots")
    st = st.assume(slots.zn() >= 0)
    st, slref = E.new_list(st, slots)
    q = over.pop("emit_queue", None)
    if q is None:
        q = arb_seq(None, "emitq")
    st = st.assume(q.zn() >= 0)
    st, qref = E.new_list(st, q, "deque")
    aq = over.pop("args_queue", None)
    if aq is None:
        aq = arb_seq(None, "argsq")
    st = st.assume(aq.zn() >= 0)
    st, aqref = E.new_list(st, aq)
    d, m = fresh_int("depth"), fresh_int("maxdepth")
    st = st.assume(d >= 0, m >= 0)
    ld = fresh_int("lockdepth")
    st = st.assume(ld >= 0)
    st, lk = new_lock(E, st, SInt(ld))
    blocked, paused = fresh_bool("blocked"), fresh_bool("paused")
    fields = {
        "_slots": slref, "_emit_queue": qref, "_args_queue": aqref,
        "_is_blocked": SBool(blocked), "_is_paused": SBool(paused),
        "_recursion_depth": SInt(d), "_max_recursion_depth": SInt(m), "_lock": lk,
        "_reemission": mode, "_priority_in_use": SBool(fresh_bool("prio")),
        "_name": SV(fresh_v("name"), "str"), "_signature": SV(fresh_v("sig"), "Signature"),
        "_description": SV(fresh_v("descr"), "str"),
        "_check_nargs_on_connect": SBool(fresh_bool("cn")), "_check_types_on_connect": SBool(fresh_bool("ct")),
        "_instance": SV(fresh_v("instref"), "instref"),
    }
    fields.update(over)
    st, ref = E.alloc(st, cls, fields)
    inner = {IMM: "_run_emit_loop_immediate", QUE: "_run_emit_loop_queued", LAT: "_run_emit_loop_latest_only"}.get(mode)
    if inner and "_run_emit_loop_inner" not in over:
        st = st.setf(ref, "_run_emit_loop_inner", BM(E.fn(SIG, f"SignalInstance.{inner}"), ref))
    return st, ref


def raise_user(E, st, ctx, names=None):
    """The callback may raise: one path per class of exception the library distinguishes."""
    for nm in (names or ("RecursionError", ELE, "user.Exception", "user.BaseException")):
        c = exc_cls(E, nm)
        s, e = E.new_exc(st, c, ())
        s = s.g(raised=e)
        ctx.sink.append((s, e))


def class_attrs(U, tag, own, inherited, names):
    """a class as an object with attributes of its own (ghost own: name -> value) and inherited ones; attributes set are recorded in own"""
    E = U.E

    def look(st, name):
        o = st.ghost["own"]
        return o[name] if name in o else inherited.get(name, UNBOUND)

    def get(E, st, o, nm, default, ctx):
        if not isinstance(nm, str):
            raise Unsupported("attribute of unknown name")
        v = look(st, nm)
        if v is not UNBOUND:
            return [(st, v)]
        if default is not UNBOUND:
            return [(st, default)]
        s2, e = E.new_exc(st, exc_cls(E, "builtins.AttributeError"), ())
        ctx.sink.append((s2, e))
        return []

    def put(E, st, o, nm, v, ctx):
        if not isinstance(nm, str):
            raise Unsupported("attribute of unknown name")
        return [st.g(own={**st.ghost["own"], nm: v})]

    def delete(E, st, ca, ctx, fn):
        o, nm = ca.pos
        if nm not in st.ghost["own"]:
            s2, e = E.new_exc(st, exc_cls(E, "builtins.AttributeError"), ())
            ctx.sink.append((s2, e))
            return []
        return [(st.g(own={k: v for k, v in st.ghost["own"].items() if k != nm}), None)]
    E.schema[("getattr", "dynamic")] = get
    E.schema[("setattr", "dynamic")] = lambda E, st, o, nm, v, ctx: [(s, None) for s in put(E, st, o, nm, v, ctx)]
    E.schema[(tag, "=")] = put
    E.stubs["builtins.delattr"] = delete
    for nm in names:
        E.schema[("hasattr", nm)] = lambda E, st, o, ctx, nm=nm: [(st, look(st, nm) is not UNBOUND)]
        E.schema[(tag, nm)] = lambda E, st, v, ctx, nm=nm: get(E, st, v, nm, UNBOUND, ctx)

    def dunder(E, st, v, ctx):
        st, r = E.alloc(st, Ext("builtins.dict"), data=DictC(dict(st.ghost["own"])), kind="dict")
        return [(st, r)]
    E.schema[(tag, "__dict__")] = dunder
    E.schema[("hasattr", "__dict__")] = lambda E, st, o, ctx: [(st, True)]
    return look
