"""C10, C11: groups of signals.

The member signals are a family of distinct objects of unknown number; what the group may do to a
member is described by the contracts of SignalInstance (contracts/slots.py, contracts/signal.py)
through per-member ghost attributes:
  @relay  number of connections of the group's forwarding callback
  @slot   number of connections of the user callback considered
  @asked  number of times the user callback was connected to it
`_is_blocked` of the members is the real attribute."""
from .common import *
import itertools
from .slots import wcb_stub, slots_schema, absent, first_index, key_of, WKEY
from .descriptor import desc_setup

R = f"{GRP}:SignalRelay"
SI = f"{SIG}:SignalInstance"


class Group:
    """an arbitrary group: relay (made by the real __init__) and members"""


def member_ops(G):
    """Contracts of connect/disconnect/`in` applied to a member signal; the relay itself runs the real code."""
    E = G.E

    def own(self_):
        return self_ == G.relay

    def is_fwd(slot):
        return isinstance(slot, BM) and slot.self_ == G.relay and getattr(slot.fn, "qual", "").endswith("._slot_relay")

    def member(E, st, self_):
        E.obligation("only member signals are touched", st, is_member(G, self_))

    def bump(E, st, m, attr, f):
        old = st.smap[attr](to_term(m))
        return E.sm_write(st, m, attr, mkint(f(zi(old))))

    def connect(E, st, ca, ctx, fn):
        if own(ca.pos[0]):
            return E.call_fn(st, fn, ca, ctx, force_inline=True)
        m, slot = ca.pos[0], ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("slot")
        member(E, st, m)
        if is_fwd(slot):
            u = ca.kw.get("unique", False)
            E.obligation("the forwarding callback takes every argument of every signal (no argument checks, no cut)", st,
                         z3.BoolVal(ca.kw.get("check_nargs", None) is False and not ca.kw.get("check_types") and ca.kw.get("max_args") is None))
            E.obligation("the forwarding callback is called directly, not queued", st, z3.BoolVal(ca.kw.get("thread") is None))
            n = zi(st.smap["@relay"](to_term(m)))
            if u is False or u is None:
                return [(bump(E, st, m, "@relay", lambda n: n + 1), slot)]
            if u == "raise":
                s, e = E.new_exc(st.assume(n > 0), exc_cls(E, "ValueError"), ())
                ctx.sink.append((s, e))
                return [(bump(E, st.assume(n == 0), m, "@relay", lambda n: n + 1), slot)]
            return [(bump(E, st, m, "@relay", lambda n: z3.If(n > 0, n, n + 1)), slot)]
        E.obligation("the callback given is the one connected", st, lib.same(E, st, slot, G.slot))
        want = st.ghost.get("want")
        if want is not None:
            E.obligation("it is connected with the options given", st,
                         z3.And(*[lib.same(E, st, ca.kw.get(k, d), v) for k, (v, d) in want.items()]))
            E.obligation("it is connected with no other options", st, z3.BoolVal(all(k in want for k in ca.kw if k != "slot" and ca.kw[k] is not None and ca.kw[k] != 0)))
        st = bump(E, st, m, "@asked", lambda n: n + 1)
        for nm in ("ValueError", "TypeError"):
            s, e = E.new_exc(st, exc_cls(E, nm), ())
            ctx.sink.append((s.g(refused=True), e))
        return [(bump(E, st, m, "@slot", lambda n: n + 1), slot)]

    def disconnect(E, st, ca, ctx, fn):
        if own(ca.pos[0]):
            return E.call_fn(st, fn, ca, ctx, force_inline=True)
        m, slot = ca.pos[0], ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("slot")
        mo = ca.pos[2] if len(ca.pos) > 2 else ca.kw.get("missing_ok", True)
        member(E, st, m)
        out = []
        if is_fwd(slot):
            attrs = ["@relay"]
        else:
            isnone = lib.same(E, st, slot, None)
            lit = is_lit(z3.simplify(isnone))
            if lit is True:
                st = bump(E, st, m, "@relay", lambda n: z3.IntVal(0))
                return [(bump(E, st, m, "@slot", lambda n: z3.IntVal(0)), None)]
            E.obligation("the callback given is the one disconnected", st, lib.same(E, st, slot, G.slot))
            attrs = ["@slot"]
        for a in attrs:
            n = zi(st.smap[a](to_term(m)))
            if mo is not True:
                s, e = E.new_exc(st.assume(z3.Not(zb(mo)), n == 0), exc_cls(E, "ValueError"), ())
                ctx.sink.append((s, e))
                st = st.assume(z3.Or(zb(mo), n > 0))
            st = bump(E, st, m, a, lambda n: z3.If(n > 0, n - 1, 0))
        return [(st, None)]

    def contains(E, st, ca, ctx, fn):
        if own(ca.pos[0]):
            return E.call_fn(st, fn, ca, ctx, force_inline=True)
        member(E, st, ca.pos[0])
        E.obligation("the callback given is the one looked for", st, lib.same(E, st, ca.pos[1], G.slot))
        return [(st, mkbool(zi(st.smap["@slot"](to_term(ca.pos[0]))) > 0))]
    E.stubs[f"{SI}.connect"] = connect
    E.stubs[f"{SI}.disconnect"] = disconnect
    E.stubs[f"{SI}.__contains__"] = contains


def is_member(G, m):
    t = to_term(m)
    return z3.And(V.is_fam(t), V.ff(t) == G.sfid, 0 <= V.fk(t), V.fk(t) < G.n.zn() if hasattr(G.n, "zn") else V.fk(t) < G.n)


def make_group(U, nslots=None):
    E, st, _ = desc_setup(U)
    slots_schema(E)
    G = Group()
    G.E, G.U = E, U
    E.schema[("SignalInstance", "_is_blocked")] = "bool"
    E.schema[("SignalInstance", "_is_paused")] = "bool"
    nm, sg = family("names"), family("members")
    G.nm, G.sg = nm, sg
    G.n = fresh_int("n_members")
    G.sfid = z3.simplify(sg(0)).arg(0)
    si = E.loader.cls(SIG, "SignalInstance")
    nf = z3.simplify(nm(0)).arg(0)
    st = st.assume(G.n >= 0)
    inr = lambda t: z3.And(V.is_fam(t), V.ff(t) == nf, 0 <= V.fk(t), V.fk(t) < G.n)
    data = DictS(inr, lambda t: SV(z3.simplify(sg(V.fk(t))), si), G.n, Seq(G.n, lambda k: SV(nm(k), "str")))
    st, G.dict = E.alloc(st, Ext("builtins.dict"), data=data, kind="dict")
    G.inst = SV(fresh_v("owner"), "instance")
    G.slot = SV(fresh_v("slot"), "callable")
    st = st.assume(G.slot.t != V.none)
    for a in ("@relay", "@slot", "@asked"):
        f = fresh_fun("m" + a, V, z3.IntSort())
        setattr(G, a[1:] + "0", f)
        st = st.sm(a, lambda t, f=f: SInt(f(t)))
        x = z3.Const("x_m", V)
        st = st.assume(z3.ForAll([x], f(x) >= 0))
    G.blocked0 = fresh_fun("member_blocked", V, z3.BoolSort())
    st = st.sm("_is_blocked", lambda t: SBool(G.blocked0(t)))
    G.relay = None
    member_ops(G)
    info = E.loader.cls(GRP, "EmissionInfo")

    def build(E, st, ca, ctx, fn):
        E.obligation("listeners of a group are called with one EmissionInfo", st, z3.BoolVal(len(ca.pos) == 1 and ca.pos[0] is info))
        return [(st, SV(fresh_v("relay_signature"), "Signature"))]
    E.stubs[f"{SIG}:_build_signature"] = build
    cls = E.loader.cls(GRP, "SignalRelay")
    c = U.ctx(GRP)
    E.stubs[f"{WCB}:weak_callback"] = wcb_stub()
    outs = E.instantiate(st, cls, CallArgs([G.dict, G.inst]), c)
    if c.sink or not outs:
        U.oblige("SignalRelay() does not raise", st, False)
        raise Unsupported("SignalRelay() does not return normally")
    st, G.relay = outs[0]
    return E, st, G


def arb_relay(E, st, G):
    """the relay in an arbitrary state: any listeners, blocked or not, paused or not"""
    G.slots = arb_seq(weak_callback_cls(E), "listeners")
    st = st.assume(G.slots.zn() >= 0)
    st = st.setd(st.f(G.relay, "_slots"), G.slots)
    G.bl, G.pa = fresh_bool("relay_blocked"), fresh_bool("relay_paused")
    G.held = arb_seq(None, "held")
    st = st.assume(G.held.zn() >= 0)
    st = st.setf(G.relay, "_is_blocked", SBool(G.bl)).setf(G.relay, "_is_paused", SBool(G.pa))
    st = st.setd(st.f(G.relay, "_args_queue"), G.held)
    st = st.setf(G.relay, "_priority_in_use", SBool(fresh_bool("prio")))
    return st


def mk(G, k):
    return z3.simplify(G.sg(k))


def relay_inv(G, st, n):
    """with listeners every member forwards to the group exactly once, without none does"""
    k = z3.Int("k_ri")
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < G.n), zi(st.smap["@relay"](mk(G, k))) == z3.If(n > 0, 1, 0)))


def relay_goal(G, st, n):
    k = fresh_int("k")
    return z3.Implies(z3.And(0 <= k, k < G.n), zi(st.smap["@relay"](mk(G, k))) == z3.If(n > 0, 1, 0))


def each(G, f):
    k = fresh_int("k")
    return z3.Implies(z3.And(0 <= k, k < G.n), f(mk(G, k)))


@unit(["C10"], "the members forward to the group exactly while it has listeners (connecting)",
      ["SignalRelay._append_slot", "SignalRelay._connect_relay", "SignalRelay.__init__"])
def u_append(U):
    E, st, G = make_group(U)
    U.oblige("a new group has no listeners and is not blocked or paused", st,
             z3.And(st.d(st.f(G.relay, "_slots")).zn() == 0, z3.Not(zb(st.f(G.relay, "_is_blocked"))), z3.Not(zb(st.f(G.relay, "_is_paused")))))
    st = arb_relay(E, st, G)
    st = st.assume(relay_inv(G, st, G.slots.zn()))
    calls = []

    def append(E, st, ca, ctx, fn):
        """contract of SignalInstance._append_slot (contracts/emit.py): one slot more"""
        q = st.d(st.f(ca.pos[0], "_slots"))
        return [(st.setd(st.f(ca.pos[0], "_slots"), arb_like(E, q)).g(appended=st.ghost.get("appended", ()) + (ca.pos[1],)), None)]

    def arb_like(E, q):
        s = fresh_seq("slots2", cls=weak_callback_cls(E))
        return Seq(z3.simplify(q.zn() + 1), s.at)
    E.stubs[f"{SI}._append_slot"] = append
    new = SV(fresh_v("newlistener"), weak_callback_cls(E))
    for kind, s, v in U.run(st, f"{R}._append_slot", [G.relay, new]):
        U.oblige("connecting a listener does not raise", s, kind == "ret")
        ap = s.ghost.get("appended", ())
        U.oblige("the listener given is added once", s, z3.BoolVal(len(ap) == 1 and ap[0] == new if len(ap) == 1 else False))
        U.oblige("then every member forwards to the group exactly once", s, relay_goal(G, s, z3.IntVal(1)))
        U.oblige("no other connection of a member changes", s, each(G, lambda m: zi(s.smap["@slot"](m)) == G.slot0(m)))
        U.frame("_append_slot", st, s, {("d", st.f(G.relay, "_slots").oid), ("s", "@relay"), ("g", "appended")})
    U.must_fail("group precondition satisfiable", st.assume(G.n > 1), z3.BoolVal(False))


@unit(["C10"], "the members forward to the group exactly while it has listeners (disconnecting)",
      ["SignalRelay._remove_slot", "SignalRelay._disconnect_relay"])
def u_remove(U):
    E, st, G = make_group(U)
    st = arb_relay(E, st, G)
    st = st.assume(relay_inv(G, st, G.slots.zn()))
    pos = fresh_int("pos")
    slref = st.f(G.relay, "_slots")

    def remove(E, st, ca, ctx, fn):
        """contract of SignalInstance._remove_slot (contracts/slots.py)"""
        x = ca.pos[1]
        q = st.d(slref)
        E.obligation("the group removes what it was asked to remove", st, lib.same(E, st, x, what))
        if x == "all":
            return [(st.setd(slref, Seq.of([])), None)]
        if lib.is_intlike(x):
            return [(st.setd(slref, seq_delete(q, zi(x))), None)]
        n2 = fresh_int("n2")
        return [(st.setd(slref, seq_delete(q, pos)), None)]
    E.stubs[f"{SI}._remove_slot"] = remove
    for what in ("all", SInt(fresh_int("i")), SV(fresh_v("listener"), weak_callback_cls(E))):
        s0 = st.assume(z3.And(0 <= pos, pos < G.slots.zn()))
        if lib.is_intlike(what):
            s0 = s0.assume(zi(what) >= 0, zi(what) < G.slots.zn())
        if what == "all":
            s0 = st
        for kind, s, v in U.run(s0, f"{R}._remove_slot", [G.relay, what]):
            U.oblige("removing a listener does not raise", s, kind == "ret")
            n = s.d(slref).zn()
            U.oblige("with the last listener the members stop forwarding; before, all forward exactly once", s, relay_goal(G, s, n))
            U.oblige("no other connection of a member changes", s, each(G, lambda m: zi(s.smap["@slot"](m)) == G.slot0(m)))
            U.frame("_remove_slot", st, s, {("d", slref.oid), ("s", "@relay")})


@unit(["C10", "C11"], "each emission of a member reaches the group once as EmissionInfo(member, args): at once, or held while paused",
      ["SignalRelay._slot_relay", "Signal.current_emitter"])
def u_forward(U):
    E, st, G = make_group(U)
    st = arb_relay(E, st, G)
    for has in (True, False):
        em = SV(mk(G, fresh_int("i")), E.loader.cls(SIG, "SignalInstance")) if has else None
        st1 = E.set_class_value(st, E.loader.cls(SIG, "Signal"), "_current_emitter", em)
        args = arb_seq(None, "args")
        st1 = st1.assume(args.zn() >= 0).g(runs=())
        # a member that calls the group's forwarding callback has at least that connection
        E.stubs[f"{SI}.__len__"] = member_len

        def run(E, st, ca, ctx, fn):
            a = ca.pos[1] if len(ca.pos) > 1 else ca.kw["args"]
            E.obligation("the group's own listeners are called", st, z3.BoolVal(ca.pos[0] == G.relay))
            st = st.g(runs=st.ghost["runs"] + (a,))
            raise_user(E, st, ctx, (ELE, "RecursionError", "user.BaseException"))
            return [(st, None)]
        E.stubs[f"{SI}._run_emit_loop"] = run
        heldref = st1.f(G.relay, "_args_queue")
        for kind, s, v in U.run(st1, f"{R}._slot_relay", [G.relay], star=args):
            runs, held = s.ghost["runs"], s.d(heldref)
            if not has:
                U.oblige("outside of an emission nothing is forwarded", s, z3.And(len(runs) == 0, held.zn() == G.held.zn()))
                U.frame("_slot_relay", st1, s, ())
                continue
            U.oblige("while the group is paused nothing is delivered, otherwise exactly one delivery", s,
                     z3.If(G.pa, z3.BoolVal(len(runs) == 0), z3.BoolVal(len(runs) == 1)))
            U.oblige("held exactly while paused", s, held.zn() == G.held.zn() + z3.If(G.pa, 1, 0))
            j = fresh_int("j")
            U.oblige("what was held stays, in order", s,
                     z3.Implies(z3.And(0 <= j, j < G.held.zn()), lib.same(E, s, held.at(j), G.held.at(j))))
            got = list(runs)
            if is_lit(held.zn() == G.held.zn() + 1) is True:
                got.append(held.at(G.held.zn()))
            for a in got:
                U.oblige("delivered is one EmissionInfo of the emitting signal and its arguments", s, is_info(U, E, s, a, em, args))
            if kind == "raise":
                U.oblige("only a listener's error is raised", s, z3.BoolVal("raised" in s.ghost and v == s.ghost["raised"]))
            U.frame("_slot_relay", st1, s, {("d", heldref.oid), ("g", "runs"), ("g", "raised")})
    U.must_fail("reachable", st1, z3.BoolVal(False))


def member_len(E, st, ca, ctx, fn):
    n = fresh_int("len")
    return [(st.assume(n >= 1), SInt(n))]


def is_info(U, E, s, a, em, args):
    if not isinstance(a, tuple) or len(a) != 1:
        return z3.BoolVal(False)
    i = a[0]
    if not isinstance(i, Ref) or getattr(s.obj(i).cls, "name", "") != "EmissionInfo":
        return z3.BoolVal(False)
    f = s.obj(i).fields
    got = f["args"]
    return z3.And(lib.same(E, s, f["signal"], em), lib.same_seq(E, s, got, args) if isinstance(got, (Seq, tuple)) else z3.BoolVal(False))


@unit(["C10"], "disconnecting from the group removes the callback from the group and from every member, or reports",
      ["SignalRelay.disconnect", "SignalInstance.disconnect", "SignalRelay._remove_slot"], timeout=60)
def u_disconnect(U):
    E, st, G = make_group(U)
    st = arb_relay(E, st, G)
    st = st.assume(relay_inv(G, st, G.slots.zn()))
    t = WKEY(G.slot.t)
    slref = st.f(G.relay, "_slots")
    j = z3.Int("j_nw")
    nowhere = z3.And(absent(E, st, G.slots, t), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < G.n), G.slot0(mk(G, j)) == 0)))
    for mo in (True, False):
        for kind, s, v in U.run(st, f"{R}.disconnect", [G.relay, G.slot], {"missing_ok": mo} if not mo else {}):
            now = s.d(slref)
            if kind == "raise":
                U.oblige("only a callback connected nowhere is reported, only with missing_ok=False", s,
                         z3.And(z3.BoolVal(not mo), U.exc_is(s, v, "ValueError"), nowhere))
                U.frame("a reported disconnect changes nothing", st, s, {("g", "wcalls")})
                continue
            U.oblige("an unknown callback is reported with missing_ok=False", s, z3.Or(z3.BoolVal(mo), z3.Not(nowhere)))
            U.oblige("one connection less on every member that had it", s,
                     each(G, lambda m: zi(s.smap["@slot"](m)) == z3.If(G.slot0(m) > 0, G.slot0(m) - 1, 0)))
            U.oblige("one listener less if it was listening to the group", s,
                     z3.Or(z3.And(absent(E, s, G.slots, t), lib.same_seq(E, s, now, G.slots)), z3.And(z3.Not(absent(E, s, G.slots, t)), now.zn() == G.slots.zn() - 1)))
            U.oblige("members forward exactly while listeners are left", s, relay_goal(G, s, now.zn()))
            U.frame("disconnect", st, s, {("d", slref.oid), ("s", "@relay"), ("s", "@slot"), ("g", "wcalls")})
    for kind, s, v in U.run(st, f"{R}.disconnect", [G.relay]):
        U.oblige("disconnect() does not raise", s, kind == "ret")
        U.oblige("disconnect() removes every listener", s, s.d(slref).zn() == 0)
        U.oblige("disconnect() removes every connection of every member", s,
                 each(G, lambda m: z3.And(zi(s.smap["@relay"](m)) == 0, zi(s.smap["@slot"](m)) == 0)))


@unit(["C10"], "connect_direct connects the callback to every member once, with the options given", ["SignalRelay.connect_direct"])
def u_direct(U):
    E, st, G = make_group(U)
    st = arb_relay(E, st, G)
    opts = {k: SV(fresh_v(k)) for k in ("check_nargs", "check_types", "unique", "max_args")}
    st = st.g(want={k: (v, None) for k, v in opts.items()})
    for deco in (False, True):
        outs = U.run(st, f"{R}.connect_direct", [G.relay] if deco else [G.relay, G.slot], opts)
        if deco:
            nxt = []
            for kind, s, v in outs:
                U.oblige("connect_direct without a callback returns a decorator", s, kind == "ret")
                U.oblige("nothing is connected before the decorator is used", s, each(G, lambda m: zi(s.smap["@asked"](m)) == G.asked0(m)))
                c = U.ctx(GRP)
                nxt += [("ret", s2, v2) for s2, v2 in E.call(s, v, CallArgs([G.slot]), c)] + [("raise", s2, v2) for s2, v2 in c.sink]
            outs = nxt
        for kind, s, v in outs:
            if kind == "raise":
                U.oblige("only a refused connection raises", s, z3.BoolVal(s.ghost.get("refused", False)))
                continue
            U.oblige("every member is connected exactly once", s, each(G, lambda m: z3.And(
                zi(s.smap["@asked"](m)) == G.asked0(m) + 1, zi(s.smap["@slot"](m)) == G.slot0(m) + 1)))
            U.oblige("the callback is returned", s, lib.same(E, s, v, G.slot))
            U.frame("connect_direct", st, s, {("s", "@asked"), ("s", "@slot"), ("g", "refused")})


# ---------------------------------------------------------------- blocking

EXC = z3.Function("in_exclude", V, V, z3.BoolSort())


def excluded(G, ex, k):
    return z3.Or(EXC(ex.t, z3.simplify(G.nm(k))), EXC(ex.t, mk(G, k)))


def block_setup(U):
    E, st, G = make_group(U)
    E.schema[("container", "in")] = lambda E, st, c, x, *a: [(st, EXC(c.t, to_term(x)))]
    return E, st, G


def blocked(s, m):
    return zb(s.smap["_is_blocked"](m))


def meddle(st, G, only=None):
    """somebody else blocks or unblocks members (those satisfying `only`) meanwhile"""
    f = fresh_fun("meddled", V, z3.BoolSort())
    old = st.smap["_is_blocked"]
    b0 = G.blocked0
    if only is None:
        return st.sm("_is_blocked", lambda t: SBool(f(t)))
    # (a member that was blocked before and is unblocked by somebody else meanwhile stays unblocked)
    return st.sm("_is_blocked", lambda t: SBool(z3.If(only(t), z3.Or(f(t), b0(t)), zb(old(t)))))


@unit(["C11"], "blocking a group blocks the members not excluded; unblocking gives back the state from before, at any nesting",
      ["SignalRelay.block", "SignalRelay.unblock"], timeout=60)
def u_block(U):
    E, st, G = block_setup(U)
    for depth in (1, 2):
        exs = [SV(fresh_v(f"exclude{i}"), "container") for i in range(depth)]
        states = [st]
        for i, ex in enumerate(exs):
            nxt = []
            for s0 in states:
                for kind, s, v in U.run(s0, f"{R}.block", [G.relay], {"exclude": ex}):
                    U.oblige("block does not raise", s, kind == "ret")
                    if kind != "ret":
                        continue
                    U.oblige("the group is blocked", s, zb(s.f(G.relay, "_is_blocked")))
                    k = fresh_int("k")
                    U.oblige("every member not excluded is blocked, excluded ones are as before", s,
                             z3.Implies(z3.And(0 <= k, k < G.n),
                                        z3.If(excluded(G, ex, k), blocked(s, mk(G, k)) == blocked(s0, mk(G, k)), blocked(s, mk(G, k)))))
                    # others may block or unblock members that are not excluded meanwhile
                    nxt.append(meddle(s, G, lambda t: z3.Not(z3.Or(*[z3.Or(EXC(e.t, t), EXC(e.t, z3.simplify(G.nm(V.fk(t))))) for e in exs]))))
            states = nxt
        for s0 in states:
            for kind, s, v in U.run(s0, f"{R}.unblock", [G.relay]):
                U.oblige("unblock does not raise", s, kind == "ret")
                if kind != "ret":
                    continue
                U.oblige("the group is not blocked", s, z3.Not(zb(s.f(G.relay, "_is_blocked"))))
                U.oblige(f"every member has the blocked state from before the group was blocked [{depth}]", s,
                         each(G, lambda m: blocked(s, m) == G.blocked0(m)))
                # and a new round starts afresh
                if depth == 1:
                    ex2 = SV(fresh_v("exclude_again"), "container")
                    s1 = meddle(s, G)
                    for k2, s2, _ in U.run(s1, f"{R}.block", [G.relay], {"exclude": ex2}):
                        for k3, s3, _ in U.run(s2, f"{R}.unblock", [G.relay]):
                            U.oblige("a second round restores the state from before the second round", s3,
                                     z3.And(z3.BoolVal(k2 == k3 == "ret"), each(G, lambda m: blocked(s3, m) == blocked(s1, m))))
    U.must_fail("a member that is not excluded exists", st.assume(G.n > 0), excluded(G, exs[0], z3.IntVal(0)))


@unit(["C11"], "nesting of any depth: what is restored at unblocking is fixed by the first block (inductive step)",
      ["SignalRelay.block", "SignalRelay.unblock"], timeout=60)
def u_block_inductive(U):
    E, st, G = block_setup(U)
    if not isinstance(st.obj(G.relay).fields.get("_sig_was_blocked"), Ref):
        raise Unsupported("representation of the states to restore (_sig_was_blocked) changed")
    ref = st.f(G.relay, "_sig_was_blocked")
    U.oblige("initially nothing is to be restored", st, lib.dict_to_s(E, st.d(ref)).n == 0)
    before = fresh_fun("before", V, z3.BoolSort())
    names = st.d(G.dict).has
    # invariant while blocked: for every member the state from before the first block is remembered
    inv = DictS(names, lambda t: SBool(before(z3.simplify(G.sg(V.fk(t))))), G.n)
    st1 = st.setd(ref, inv).setf(G.relay, "_is_blocked", True)
    ex = SV(fresh_v("exclude"), "container")
    k = fresh_int("k")

    def holds(s):
        d = lib.dict_to_s(E, s.d(ref))
        kn = z3.simplify(G.nm(k))
        return z3.Implies(z3.And(0 <= k, k < G.n), z3.And(d.has(kn), zb(d.val(kn)) == before(mk(G, k))))
    for kind, s, v in U.run(st1, f"{R}.block", [G.relay], {"exclude": ex}):
        U.oblige("blocking again keeps what is to be restored", s, z3.And(z3.BoolVal(kind == "ret"), holds(s)))
        U.oblige("every member not excluded is blocked, excluded ones are as before", s,
                 z3.Implies(z3.And(0 <= k, k < G.n), z3.If(excluded(G, ex, k), blocked(s, mk(G, k)) == G.blocked0(mk(G, k)), blocked(s, mk(G, k)))))
    E0 = DictC({})
    st2 = st.setd(ref, E0).assume(*[z3.ForAll([z3.Int("k_b")], z3.Implies(z3.And(0 <= z3.Int("k_b"), z3.Int("k_b") < G.n), before(mk(G, z3.Int("k_b"))) == G.blocked0(mk(G, z3.Int("k_b")))))])
    for kind, s, v in U.run(st2, f"{R}.block", [G.relay], {"exclude": ex}):
        U.oblige("the first block remembers the state of every member", s, z3.And(z3.BoolVal(kind == "ret"), holds(s)))
    # a member that is to stay blocked is still blocked, one to be unblocked may be anything
    st3 = st1.assume(z3.ForAll([z3.Int("k_c")], z3.Implies(z3.And(0 <= z3.Int("k_c"), z3.Int("k_c") < G.n, before(mk(G, z3.Int("k_c")))), G.blocked0(mk(G, z3.Int("k_c"))))))
    for kind, s, v in U.run(st3, f"{R}.unblock", [G.relay]):
        U.oblige("unblock restores the remembered state of every member", s,
                 z3.And(z3.BoolVal(kind == "ret"), each(G, lambda m: blocked(s, m) == before(m))))
        U.oblige("and nothing is left to be restored", s, z3.Implies(z3.And(0 <= k, k < G.n), z3.Not(lib.dict_to_s(E, s.d(ref)).has(z3.simplify(G.nm(k))))))
        U.oblige("the group is not blocked", s, z3.Not(zb(s.f(G.relay, "_is_blocked"))))


@unit(["C11"], "group.blocked(): blocks with the exclusions given and unblocks when the outermost one is left, also by an exception",
      ["SignalRelay.blocked", "_SignalBlocker.__init__", "_SignalBlocker.__enter__", "_SignalBlocker.__exit__"])
def u_blocked_ctx(U):
    E, st, G = block_setup(U)
    st = arb_relay(E, st, G)
    st = st.g(log=())
    ex = SV(fresh_v("exclude"), "container")

    def block(E, st, ca, ctx, fn):
        x = ca.kw.get("exclude", ca.pos[1] if len(ca.pos) > 1 else ())
        E.obligation("blocked() blocks this group with the exclusions given", st, z3.And(z3.BoolVal(ca.pos[0] == G.relay), lib.same(E, st, x, ex)))
        return [(st.setf(G.relay, "_is_blocked", True).g(log=st.ghost["log"] + ("block",)), None)]

    def unblock(E, st, ca, ctx, fn):
        return [(st.setf(G.relay, "_is_blocked", False).g(log=st.ghost["log"] + ("unblock",)), None)]
    E.stubs[f"{R}.block"] = block
    E.stubs[f"{R}.unblock"] = unblock

    def body(st, v):
        st = st.g(log=st.ghost["log"] + ("body",))
        s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
        return [("n", st, None), ("raise", s.g(raised=e), e)]
    for kind, s, v in U.run_with(st, f"{R}.blocked", [G.relay, ex], body):
        log = s.ghost["log"]
        U.oblige("blocked before the body; unblocked after it exactly when the group was not blocked before", s,
                 z3.If(G.bl, z3.BoolVal(log == ("block", "body")), z3.BoolVal(log == ("block", "body", "unblock"))))
        U.oblige("an exception of the body is passed on", s, z3.BoolVal((kind == "raise") == ("raised" in s.ghost) and (kind != "raise" or v == s.ghost["raised"])))


# ---------------------------------------------------------------- SignalGroup

@unit(["C10", "C11"], "a group delegates to its relay with the arguments given", ["SignalGroup.connect", "SignalGroup.connect_direct",
      "SignalGroup.disconnect", "SignalGroup.block", "SignalGroup.unblock", "SignalGroup.blocked", "SignalGroup.pause",
      "SignalGroup.resume", "SignalGroup.paused", "SignalGroup.all"])
def u_delegate(U):
    E, st, G = make_group(U)
    cls = E.loader.cls(GRP, "SignalGroup")
    st, g = E.alloc(st, cls, {"_psygnal_relay": G.relay, "_psygnal_instances": G.dict})
    st = st.g(calls=())

    def rec(name):
        res = SV(fresh_v("result_" + name))

        def h(E, st, ca, ctx, fn):
            c = E.loader.cls(GRP, "SignalRelay")
            [(st2, fctx)] = E.bind_args(st, fn, ca, ctx)
            fr = st2.heap[fctx.frames[0][0]].fields
            args = {a.arg: fr[a.arg] for a in fn.node.args.args + fn.node.args.kwonlyargs}
            return [(st.g(calls=st.ghost["calls"] + ((name, args),)), res)]
        return h, res
    import ast as _ast
    for name in ("connect", "connect_direct", "disconnect", "block", "unblock", "blocked", "pause", "resume", "paused"):
        fn = E.class_attr_fn(st, G.relay, name)
        h, res = rec(name)
        E.stubs = {k: v for k, v in E.stubs.items() if k != fn.qual}
        E.stubs[fn.qual] = h
        gf = E.class_attr_fn(st, g, name)
        params = [a.arg for a in gf.node.args.args + gf.node.args.kwonlyargs if a.arg != "self"]
        full = {p: SV(fresh_v(p)) for p in params}
        for p in ("slot",):
            if p in full:
                full[p] = G.slot
        variants = [{}, full]
        for kw in variants:
            for kind, s, v in U.run(st, f"{GRP}:SignalGroup.{name}", [g], dict(kw)):
                calls = s.ghost["calls"]
                U.oblige(f"group.{name} is the relay's {name}, once", s, z3.BoolVal(kind == "ret" and len(calls) == 1 and calls[0][0] == name))
                if len(calls) != 1:
                    continue
                a = calls[0][1]
                U.oblige(f"group.{name} acts on the group's relay", s, z3.BoolVal(a.pop("self", None) == G.relay))
                U.oblige(f"group.{name} returns its result", s, lib.same(E, s, v, res))
                for p, x in kw.items():
                    U.oblige(f"group.{name} hands on {p}", s, lib.same(E, s, a[p], x) if p in a else False)
                if not kw:
                    # defaults: what the relay does by default
                    d = default_args(E, s, fn)
                    for p, x in d.items():
                        U.oblige(f"group.{name}: default {p} is the relay's", s, lib.same(E, s, a.get(p), x))
                U.frame(f"group.{name}", st, s, {("g", "calls")})
    for kind, s, v in U.run(st, f"{GRP}:SignalGroup.all", [g]):
        U.oblige("group.all is the relay", s, z3.BoolVal(kind == "ret" and v == G.relay))


def default_args(E, st, fn):
    out = {}
    a = fn.node.args
    pos = a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        from pyvc.engine import Ctx
        [(s, v)] = E.ev(d, st, Ctx(fn.mod, (), None, []))
        out[x.arg] = v
    return out


@unit(["C10", "C09"], "a new group has one signal instance of its own per declared signal, under its name, and a relay over them",
      ["SignalGroup.__init__", "SignalGroup.__getitem__", "SignalGroup.__len__", "SignalGroup.__iter__", "SignalGroup.__contains__", "SignalGroup.signals"])
def u_group_init(U):
    E, st, _ = desc_setup(U)
    cls = E.loader.cls(GRP, "SignalGroup")
    INST = z3.Function("instance_of", V, V, V)
    nm, sg = family("names"), family("signals")
    n = fresh_int("n_signals")
    st = st.assume(n >= 0)
    nf = z3.simplify(nm(0)).arg(0)
    sigcls = E.loader.cls(SIG, "Signal")
    inr = lambda t: z3.And(V.is_fam(t), V.ff(t) == nf, 0 <= V.fk(t), V.fk(t) < n)
    st, sigs = E.alloc(st, Ext("builtins.dict"), data=DictS(inr, lambda t: SV(z3.simplify(sg(V.fk(t))), sigcls), n, Seq(n, lambda k: SV(nm(k), "str"))), kind="dict")
    conf = fresh_fun("conflict", V, z3.BoolSort())
    st, cs = E.alloc(st, Ext("builtins.set"), data=SetS(lambda t: conf(t), fresh_int("n_conf")), kind="set")
    st = E.set_class_value(st, cls, "_psygnal_signals", sigs)
    st = E.set_class_value(st, cls, "_psygnal_name_conflicts", cs)
    si = E.loader.cls(SIG, "SignalInstance")

    def made(E, st, ca, ctx, fn):
        return [(st, SV(INST(to_term(ca.pos[0]), to_term(ca.pos[1])), si))]
    # contracts of Signal.__get__ / _create_signal_instance (contracts/descriptor.py): the owner's own instance
    E.stubs[f"{SIG}:Signal.__get__"] = made
    E.stubs[f"{SIG}:Signal._create_signal_instance"] = made
    relays = []

    def relay(E, st, ca, ctx, c):
        st, r = E.alloc(st, c, {})
        return [(st.g(relay=(r, ca.pos[0], ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("instance"))), r)]
    E.stubs[f"{GRP}:SignalRelay"] = relay
    E.schema[("builtins", "hasattr")] = None
    inst = SV(fresh_v("owner"), "instance")
    c = U.ctx(GRP)
    outs = E.instantiate(st, cls, CallArgs([inst]), c)
    U.oblige("a group of a subclass with signals can be made", st, z3.BoolVal(len(outs) > 0 and not c.sink))
    for s, g in outs:
        d = s.d(s.f(g, "_psygnal_instances"))
        d = lib.dict_to_s(E, d)
        k = fresh_int("k")
        name = z3.simplify(nm(k))
        x = fresh_v("x")
        U.oblige("every declared signal has an instance of its own for this group, under its name", s,
                 z3.Implies(z3.And(0 <= k, k < n), z3.And(d.has(name), to_term(d.val(name)) == INST(z3.simplify(sg(k)), to_term(g)))))
        U.oblige("and there are no others", s, z3.Implies(d.has(x), inr(x)))
        r = s.ghost.get("relay")
        U.oblige("the group's relay is over exactly these, on behalf of the owner", s,
                 z3.And(z3.BoolVal(r is not None and s.f(g, "_psygnal_relay") == r[0] and r[1] == s.f(g, "_psygnal_instances")), lib.same(E, s, r[2], inst)) if r else False)
        U.frame("SignalGroup()", st, s, {("g", "relay")})
    # lookups
    st, D = E.alloc(st, Ext("builtins.dict"), data=DictS(inr, lambda t: SV(z3.simplify(sg(V.fk(t))), si), n, Seq(n, lambda k: SV(nm(k), "str"))), kind="dict")
    st, g = E.alloc(st, cls, {"_psygnal_instances": D})
    key = SV(fresh_v("key"), "str")
    for kind, s, v in U.run(st, f"{GRP}:SignalGroup.__getitem__", [g, key]):
        U.oblige("group[name] is the member of that name, KeyError otherwise", s,
                 z3.And(inr(key.t), lib.same(E, s, v, SV(sg(V.fk(key.t)), si))) if kind == "ret" else z3.And(z3.Not(inr(key.t)), U.exc_is(s, v, "KeyError")))
    for kind, s, v in U.run(st, f"{GRP}:SignalGroup.__contains__", [g, key]):
        U.oblige("`name in group`", s, z3.And(z3.BoolVal(kind == "ret"), zb(v) == inr(key.t)))
    for kind, s, v in U.run(st, f"{GRP}:SignalGroup.__len__", [g]):
        U.oblige("len(group)", s, z3.And(z3.BoolVal(kind == "ret"), zi(v) == n))
    for kind, s, v in U.run(st, f"{GRP}:SignalGroup.signals", [g]):
        U.oblige("group.signals shows the members", s, z3.BoolVal(kind == "ret" and isinstance(v, Ref) and s.obj(v).kind in ("mapproxy", "dict") and s.d(v) is s.d(D)))


@unit("C10", "declaring a group class: all Signals of the class and its bases are its members; reserved names stay what they are; aliases are merged; nothing of a base is modified",
      ["SignalGroup.__init_subclass__"], timeout=120, bound="classes with at most 5 attributes that may be signals")
def u_init_subclass(U):
    E = U.E
    BASE = E.loader.cls(GRP, "SignalGroup")
    sigcls = E.loader.cls(SIG, "Signal")
    own_reserved = [k for k in ("all", "connect", "__init__", "psygnals_uniform")]
    for where_all, psy, base, forbidden in (("own", 0, 1, 0), ("own", 0, 0, 1), ("mixin", 0, 0, 0), ("both", 0, 0, 0), ("no", 1, 1, 0), ("no", 0, 0, 0), ("own", 1, 0, 0)):
        st = St()
        cls = SV(fresh_v("cls"), "grpcls")
        B = z3.BoolSort()
        vals = {}

        def val(name):
            v = vals[name] = SV(fresh_v("attr_" + name), "maybe_signal")
            return v
        own = {"a": val("a"), "n": val("n")}
        inh = {"b": val("b")}
        groupattr = {k: SV(fresh_v("group_" + k.strip("_")), "groupattr") for k in own_reserved}
        inh.update(groupattr)
        if where_all in ("mixin", "both"):
            inh["all"] = val("all_mixin")
        if where_all in ("own", "both"):
            own["all"] = val("all")
        if psy:
            own["psygnal_z"] = val("psygnal_z")
        if forbidden:
            own["_psygnal_x"] = SV(fresh_v("x"))
        bsig = {"p": SV(fresh_v("sig_p"), "maybe_signal"), "a": SV(fresh_v("old_a"), "maybe_signal"), "connect": SV(fresh_v("sig_connect"), "maybe_signal")} if base else {}
        if base:
            own["connect"] = val("connect")
        ISSIG = fresh_fun("is_signal", V, B)
        E.schema[("isinstance", f"{SIG}:Signal")] = lambda E, st, v, I=ISSIG: I(v.t) if isinstance(v, SV) and v.cls == "maybe_signal" else z3.BoolVal(False) if isinstance(v, SV) and v.cls == "groupattr" else None
        st = st.assume(lib.is_object(cls.t), *[lib.is_object(v.t) for v in list(vals.values()) + list(groupattr.values())])
        mk = lambda st, items: E.alloc(st, Ext("builtins.dict"), data=DictC(items), kind="dict")
        given = {"a": "x", "c": None}
        st, givenr = mk(st, given)
        bal = {"p": "pp", "a": "old"} if base else {}
        if base:
            st, bs = mk(st, bsig)
            st, ba = mk(st, bal)
            inh["_psygnal_signals"], inh["_psygnal_aliases"] = bs, ba
        look = class_attrs(U, "grpcls", own, inh, set(own) | set(inh) | {"_psygnal_signals", "_psygnal_aliases", "_psygnal_name_conflicts", "_psygnal_uniform"})
        st = st.g(own=own, warned=(), uniform=())
        names = sorted(set(own) | set(inh))
        reserved = own_reserved

        def dir_(E, st, ca, ctx, fn):
            [c] = ca.pos
            return [(st, Seq.of(list(reserved) if c is BASE else names))]
        E.stubs["builtins.dir"] = dir_
        UNI = fresh_bool("uniform")
        E.stubs[f"{GRP}:_is_uniform"] = lambda E, st, ca, ctx, fn, UNI=UNI: [(s.g(uniform=s.ghost["uniform"] + (q,)), SBool(UNI)) for s, q in lib.iterate(E, st, ca.pos[0], ctx)]
        E.stubs["warnings.warn"] = lambda E, st, ca, ctx, fn: [(st.g(warned=st.ghost["warned"] + (ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("category"),)), None)]
        E.assumptions.add("warnings are not turned into errors")
        E.stubs["builtins.object.__init_subclass__"] = lambda E, st, ca, ctx, fn: [(st, None)]
        E.stubs["inspect.getattr_static"] = lambda E, st, ca, ctx, fn: [(st, groupattr[ca.pos[1]])]
        STRICT = SBool(fresh_bool("strict"))
        pre = st
        what = f"class with `all` {where_all}{', psygnal_z' if psy else ''}{', base' if base else ''}{', forbidden' if forbidden else ''}"
        for kind, s, v in U.run(st, f"{GRP}:SignalGroup.__init_subclass__", [cls], {"strict": STRICT, "signal_aliases": givenr}):
            o = s.ghost["own"]
            if kind == "raise":
                U.oblige(f"{what}: refused (TypeError) only for attributes of psygnal's own, or as a strict group of different signals", s,
                         z3.And(z3.BoolVal(U.exc_is(s, v, "TypeError")), z3.BoolVal(True) if forbidden else z3.And(zb(STRICT), z3.Not(UNI))))
                continue
            U.oblige(f"{what}: refused if it has attributes of psygnal's own, or is strict and its signals differ", s, z3.And(z3.BoolVal(not forbidden), z3.Not(z3.And(zb(STRICT), z3.Not(UNI)))))
            if forbidden:
                continue
            pget = lambda k: own[k] if k in own else inh.get(k)
            d = o.get("_psygnal_signals")
            if not isinstance(d, Ref):
                raise Unsupported("declared signals in another form")
            d = lib.dict_to_s(E, s.d(d))
            x = fresh_v("x")
            has = lambda t: z3.Or(*[t == to_term(k) for k in bsig], *[z3.And(t == to_term(k), ISSIG(pget(k).t)) for k in names if isinstance(pget(k), SV) and pget(k).cls == "maybe_signal"])
            U.oblige(f"{what}: the members are the signals among the attributes (inherited ones too), and those of the base group", s, d.has(x) == has(x))
            U.oblige(f"{what}: a member is the signal of that name, the base's where there is none here", s, z3.And(
                *[z3.Implies(ISSIG(pget(k).t), to_term(d.val(to_term(k))) == pget(k).t) for k in names if isinstance(pget(k), SV) and pget(k).cls == "maybe_signal"],
                *[z3.Implies(z3.Not(ISSIG(own[k].t)) if k in own else z3.BoolVal(True), to_term(d.val(to_term(k))) == w.t) for k, w in bsig.items()]))
            c = o.get("_psygnal_name_conflicts")
            conf = {k: has(to_term(k)) for k in names if k in reserved or k.startswith(("_psygnal", "psygnal"))}
            if not isinstance(c, Ref):
                raise Unsupported("conflicts in another form")
            inset = lib.set_to_s(s.d(c)).has
            U.oblige(f"{what}: the names in conflict are the members named like an attribute of groups, or psygnal...", s, inset(x) == z3.Or(*[z3.And(x == to_term(k), b) for k, b in conf.items()] or [z3.BoolVal(False)]))
            keeps = []
            for k in reserved:
                v2 = look(s, k)
                kept = [z for z in (own.get(k), inh.get(k), groupattr[k]) if z is not None]
                sg = lambda z: ISSIG(to_term(z)) if z.cls == "maybe_signal" else z3.BoolVal(False)
                keeps.append(z3.And(z3.Not(sg(v2)), z3.Or(sg(pget(k)), z3.BoolVal(v2 is pget(k)))) if any(v2 is z for z in kept) else z3.BoolVal(False))
            U.oblige(f"{what}: an attribute of groups is no signal; other attributes are not touched", s, z3.And(*keeps, z3.BoolVal(all(look(s, k) is pget(k) for k in ("a", "b", "n")))))
            U.oblige(f"{what}: conflicts are announced by a UserWarning", s, z3.If(z3.Or(*conf.values()) if conf else z3.BoolVal(False), z3.BoolVal(s.ghost["warned"] == (Ext("builtins.UserWarning"),)), z3.BoolVal(s.ghost["warned"] == ())))
            al = o.get("_psygnal_aliases")
            if not isinstance(al, Ref):
                raise Unsupported("aliases in another form")
            ad = lib.dict_to_s(E, s.d(al))
            exp = {**bal, **given}
            U.oblige(f"{what}: the aliases are the base's, and those given, which take precedence", s, z3.And(ad.has(x) == z3.Or(*[x == to_term(k) for k in exp]), *[to_term(ad.val(to_term(k))) == to_term(w) for k, w in exp.items()]))
            U.oblige(f"{what}: the dicts are the class's own", s, z3.BoolVal(all(o[z].oid not in pre.heap for z in ("_psygnal_signals", "_psygnal_aliases", "_psygnal_name_conflicts"))))
            un = s.ghost["uniform"]
            U.oblige(f"{what}: it is uniform if its members are", s, z3.And(z3.BoolVal(len(un) == 1 and un[0].items is not None), lib.same(E, s, o.get("_psygnal_uniform"), SBool(UNI)),
                     *([z3.Implies(d.has(to_term(k)), z3.Or(*[to_term(z) == to_term(d.val(to_term(k))) for z in un[0].items])) for k in set(names) | set(bsig)] +
                       [z3.Or(*[z3.And(d.has(to_term(k)), to_term(z) == to_term(d.val(to_term(k)))) for k in set(names) | set(bsig)]) for z in un[0].items] if len(un) == 1 and un[0].items is not None else [])))
            U.frame(what, pre, s, {("g", "own"), ("g", "warned"), ("g", "uniform")})
        U.must_fail(f"{what}: satisfiable", st, z3.BoolVal(False))


for _counts in ((), (0,), (2,), (1, 1), (1, 2), (0, 1), (1, 1, 1), (2, 2), (2, 1, 2), (1, 1, 1, 1)):
    def u_uniform(U, _counts=_counts):
        E = U.E
        base_schema(E)
        STR = z3.Function("str_of", V, V)
        ANN = z3.Function("annotation_of", V, V)
        st = St()
        sigs = [SV(fresh_v(f"signal{i}"), "sig_decl") for i in range(len(_counts))]
        pars = [[SV(fresh_v(f"p{i}_{j}"), "Parameter") for j in range(c)] for i, c in enumerate(_counts)]
        at = lambda v: [i for i, x in enumerate(sigs) if x is v or z3.eq(x.t, to_term(v))][0]
        wrap = {}

        def step(tag):
            def h(E, st, v, ctx):
                i = at(v) if not z3.is_expr(getattr(v, "t", None)) or str(v.t) not in wrap else wrap[str(v.t)]
                r = SV(fresh_v(tag), tag)
                wrap[str(r.t)] = i
                return [(st, r)]
            return h
        E.schema[("sig_decl", "signature")] = step("Signature")
        E.schema[("Signature", "parameters")] = step("params")
        E.schema[("params", "values")] = step("pvalues")
        E.schema[("pvalues", "()")] = lambda E, st, f, ca, ctx: [(st, Seq.of(pars[wrap[str(f.t)]]))]
        E.schema[("Parameter", "annotation")] = lambda E, st, v, ctx: [(st, SV(ANN(v.t), "anno"))]
        E.stubs["builtins.str"] = lambda E, st, ca, ctx, f: [(st, SV(STR(to_term(ca.pos[0])), "str"))]
        E.assumptions.add("types are told apart by their text (str), as Signature does")
        same = lambda a, b: z3.And(z3.BoolVal(len(a) == len(b)), *[STR(ANN(x.t)) == STR(ANN(y.t)) for x, y in zip(a, b)])
        uni = z3.And(*[same(pars[0], p) for p in pars[1:]]) if pars else z3.BoolVal(True)
        for kind, s, v in U.run(st, f"{GRP}:_is_uniform", [Seq.of(sigs)]):
            U.frame("_is_uniform", st, s, ())
            U.oblige("uniform exactly when all signals have parameters of the same types", s,
                     zb(v) == uni if kind == "ret" else z3.BoolVal(False))
        U.must_fail("satisfiable", st, z3.BoolVal(False))
    unit("C10", f"a group is uniform exactly when its signals ({_counts} parameters) have the same types", ["_is_uniform"],
         bound="the numbers of signals and parameters stated")(u_uniform)


@unit("C10", "unknown attributes of a group are AttributeErrors; psygnals_uniform is what the class was declared to be",
      ["SignalGroup.__getattr__", "SignalGroup.psygnals_uniform", "SignalGroup.is_uniform"])
def u_group_attrs(U):
    E, st, G = make_group(U)
    cls = E.loader.cls(GRP, "SignalGroup")
    st, g = E.alloc(st, cls, {"_psygnal_relay": G.relay, "_psygnal_instances": G.dict})
    E.stubs["warnings.warn"] = lambda E, st, ca, ctx, fn: [(st, None)]
    E.assumptions.add("warnings are not turned into errors")
    for kind, s, v in U.run(st, f"{GRP}:SignalGroup.__getattr__", [g, SV(fresh_v("name"), "str")]):
        U.oblige("an attribute a group does not have: AttributeError", s, z3.BoolVal(kind == "raise" and U.exc_is(s, v, "AttributeError")))
        U.frame("__getattr__", st, s, ())
    uni = SBool(fresh_bool("declared_uniform"))
    c = SV(fresh_v("cls"), "grpcls2")
    E.schema[("grpcls2", "_psygnal_uniform")] = lambda E, st, v, ctx: [(st, uni)]
    for name in ("psygnals_uniform", "is_uniform"):
        for kind, s, v in U.run(st, f"{GRP}:SignalGroup.{name}", [c]):
            U.oblige(f"{name}: what was found when the class was declared", s, lib.same(E, s, v, uni) if kind == "ret" else z3.BoolVal(False))
            U.frame(name, st, s, ())
