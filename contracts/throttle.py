"""C20: throttled and debounced functions.

Time is ghost state (`now`); threading.Timer is external: a timer started at `now` with a delay d runs its function once,
at a moment >= now + d, unless it was cancelled, and is alive from start() until then.  The operations (a request, flush,
cancel, the expiry of the timer) are verified one at a time from every state satisfying the invariant below and must
re-establish it; requests arriving from elsewhere while the wrapped function runs are included.

Invariant: only the current timer may be alive; a pending call has a living timer and carries the latest arguments; while
the interval since the last call (throttler) or the last request (debouncer) has not passed, the timer lives, and it does
not expire before that."""
from .common import *
from pyvc import loops

TH = "psygnal._throttler"
KINDS = [(c, p) for c in ("Throttler", "Debouncer") for p in ("leading", "trailing")]
DUR = z3.Function("duration_of", V, z3.IntSort())
GH = {("g", k) for k in ("now", "lastv", "last", "reqv", "req", "timers", "calls", "want", "nested", "raised")}


class TS:
    pass


def dur(v):
    return z3.IntVal(v) if isinstance(v, int) else DUR(to_term(v))


def world(U, cls, policy):
    E = U.E
    S = TS()
    S.E, S.U, S.cls, S.policy = E, U, cls, policy
    st = St()
    S.func = SV(fresh_v("func"), "wrapped")
    S.iv = SV(fresh_v("interval"), "float")
    S.t0 = SV(fresh_v("timer"), "timer")
    S.alive0, S.dead0 = fresh_bool("alive"), fresh_int("deadline")
    st, (S.args, S.kwargs) = fresh_args(E, st)
    S.pend0 = fresh_bool("pending")
    st, S.obj = E.alloc(st, E.loader.cls(TH, cls), {
        "__wrapped__": S.func, "_interval": S.iv, "_policy": policy, "_has_pending": SBool(S.pend0), "_timer": S.t0,
        "_args": S.args, "_kwargs": S.kwargs})
    now, last, req = fresh_int("now"), fresh_int("last"), fresh_int("req")
    st = st.g(now=now, lastv=fresh_bool("lastv"), last=last, reqv=fresh_bool("reqv"), req=req, calls=(), want=(S.args, S.kwargs), nested=False,
              timers=((S.t0.t, S.alive0, S.dead0, None, None, False),)).assume(S.func.t != to_term(None), dur(S.iv) >= 0, last <= now, req <= now)
    hooks(S)
    return S, st


def timer_of(st, t):
    for x in st.ghost["timers"]:
        if x[0].eq(t):
            return x
    raise Unsupported("a timer the contract does not know")


def set_timer(st, t, alive, deadline=None, cancelled=None):
    """cancelled: it may still look alive for a moment, although it will not expire"""
    return st.g(timers=tuple((x[0], alive, x[2] if deadline is None else deadline, x[3], x[4], x[5] if cancelled is None else cancelled) if x[0].eq(t) else x for x in st.ghost["timers"]))


def pass_time(st):
    n = fresh_int("now")
    return st.assume(n >= st.ghost["now"]).g(now=n)


def hooks(S):
    E, U = S.E, S.U

    def Timer(E, st, ca, ctx, fn):
        a = list(ca.pos)
        iv = a[0] if a else ca.kw["interval"]
        f = a[1] if len(a) > 1 else ca.kw["function"]
        if len(a) > 2 or set(ca.kw) - {"interval", "function"} or ca.star is not None:
            raise Unsupported("Timer with arguments for its function")
        t = fresh_v("newtimer")
        return [(st.g(timers=st.ghost["timers"] + ((t, z3.BoolVal(False), z3.IntVal(0), f, iv, False),)), SV(t, "timer"))]
    E.stubs["threading.Timer"] = Timer
    E.assumptions.add("threading.Timer: runs its function once, not before the delay is over, unless cancelled; alive from start() until then")

    def m(name):
        E.schema[("timer", name)] = lambda E, st, v, ctx: [(st, Partial(Ext("timer." + name), [v], {}))]
    for n in ("start", "cancel", "is_alive", "join"):
        m(n)
    for n in ("daemon", "name"):
        E.schema[("timer", n)] = lambda E, st, v, ctx: [(st, SV(fresh_v("x")))]
    E.schema[("timer", "=")] = lambda E, st, o, name, v, ctx: [st] if name in ("daemon", "name") else unsupported(name)

    def start(E, st, ca, ctx, fn):
        x = timer_of(st, ca.pos[0].t)
        if x[3] is None:
            raise Unsupported("the earlier timer started again")
        U.oblige("no two timers are running", st, z3.And(*[z3.Not(y[1]) for y in st.ghost["timers"]]))
        return [(set_timer(st, x[0], z3.BoolVal(True), st.ghost["now"] + dur(x[4])), None)]

    def cancel(E, st, ca, ctx, fn):
        x = timer_of(st, ca.pos[0].t)
        started = x[3] is None or not lib_false(x[1]) or x[5]
        return [(set_timer(st, ca.pos[0].t, z3.BoolVal(False), None, started), None)]

    def is_alive(E, st, ca, ctx, fn):
        x = timer_of(st, ca.pos[0].t)
        return [(st, SBool(fresh_bool("looks_alive")) if x[5] else mkbool(x[1]))]
    E.stubs.update({"timer.start": start, "timer.cancel": cancel, "timer.is_alive": is_alive})

    def func(E, st, f, ca, ctx):
        g = st.ghost
        got = (ca.star if ca.star is not None else tuple(ca.pos), ca.kwstar if ca.kwstar is not None else dict(ca.kw))
        U.oblige("the wrapped function gets the arguments of the most recent call", st, same_args(S, st, got, g["want"]) if not (ca.pos and ca.star is not None) and not (ca.kw and ca.kwstar is not None) else z3.BoolVal(False))
        if g.get("flushing") is not True:
            if S.cls == "Throttler":
                U.oblige("at most one call per interval", st, z3.Implies(g["lastv"], g["now"] >= g["last"] + dur(S.iv)))
            else:
                U.oblige("no call before an interval has passed without one", st, z3.Implies(g["reqv0"] if "reqv0" in g else g["reqv"], g["now"] >= (g["req0"] if "req0" in g else g["req"]) + dur(S.iv)))
        st = st.g(calls=g["calls"] + (got,), lastv=z3.BoolVal(True), last=g["now"], pendingcall=False)
        st = pass_time(st)
        outs = [st]
        if not g["nested"]:
            for s, b in E.split(st, timer_of(st, st.f(S.obj, "_timer").t)[1]):
                if b:       # another request arrives meanwhile
                    s, new = fresh_args(E, s)
                    outs += [s2.g(nested="done") for k, s2, v in request(S, s.g(nested=True), new) if k == "ret"]
        res = []
        for s in outs:
            res.append((s, None))
            raise_user(E, s, ctx, ("user.Exception", "user.BaseException"))
        return res
    E.schema[("wrapped", "()")] = func
    E.assumptions.add("the wrapped function does not call itself through its throttled version while that is idle; operations are not interleaved inside one another (except requests during the wrapped function)")


def lib_false(t):
    return is_lit(z3.simplify(t)) is False


def unsupported(x):
    raise Unsupported(str(x))


def same_args(S, st, a, b):
    """the same arguments: positional ones one by one, keyword arguments name by name"""
    def eq(x, y):
        if x is y:
            return z3.BoolVal(True)
        if isinstance(x, (tuple, Seq)) and isinstance(y, (tuple, Seq)):
            return lib.same_seq(S.E, st, x, y)
        x, y = norm(x), norm(y)
        return loops.same_data(S.E, st, x, y) if x is not y else z3.BoolVal(True)

    def norm(v):
        return st.d(v) if isinstance(v, Ref) else DictC(v) if isinstance(v, dict) else v
    return z3.And(*[eq(x, y) for x, y in zip(a, b)])


def fresh_args(E, st):
    """(st, (args, kwargs)) any arguments"""
    a = arb_seq(None, "args")
    st, d = lib.fresh_dict(st.assume(a.zn() >= 0), "kwargs", keycls="str")
    st, ref = E.alloc(st, Ext("builtins.dict"), data=d, kind="dict")
    return st, (a, ref)


def request(S, st, new):
    """obj(*args, **kwargs)"""
    g = st.ghost
    st = st.g(want=new, reqv0=g["reqv"], req0=g["req"], reqv=z3.BoolVal(True), req=g["now"])
    f = S.E.class_attr_fn(st, S.obj, "__call__")
    outs = S.U.run(st, BM(f, S.obj), [], None, new[0], new[1])
    return [(k, drop0(s), v) for k, s, v in outs]


def drop0(s):
    g = dict(s.ghost)
    g.pop("reqv0", None), g.pop("req0", None)
    s2 = s.g()
    s2.ghost = g
    return s2


def cur_timer(S, s):
    return timer_of(s, s.f(S.obj, "_timer").t)


def pending(S, s):
    p = s.f(S.obj, "_has_pending")
    return z3.BoolVal(p) if isinstance(p, bool) else zb(p)


def invariant(S, s):
    g = s.ghost
    _, alive, dl, _, _, _ = cur_timer(S, s)
    iv = dur(S.iv)
    v, t = (g["lastv"], g["last"]) if S.cls == "Throttler" else (g["reqv"], g["req"])
    want = same_args(S, s, (s.f(S.obj, "_args"), s.f(S.obj, "_kwargs")), g["want"])
    return [("a pending call has a running timer: it will not be lost", z3.Implies(pending(S, s), alive)),
            ("the current timer is not a cancelled one, which may look alive", z3.BoolVal(not cur_timer(S, s)[5])),
            ("only the current timer runs", z3.And(*[z3.Not(x[1]) for x in g["timers"] if not x[0].eq(s.f(S.obj, "_timer").t)])),
            ("the timer does not expire before the interval is over", z3.Implies(z3.And(alive, v), dl >= t + iv)),
            ("the timer runs until the interval is over", z3.Implies(z3.And(z3.Not(alive), v), g["now"] >= t + iv)),
            ("a pending call has the latest arguments", z3.Implies(pending(S, s), want))]


def assume_inv(S, s):
    return s.assume(*[f for _, f in invariant(S, s)])


def settings_kept(S, s):
    return z3.And(lib.same(S.E, s, s.f(S.obj, "__wrapped__"), S.func), lib.same(S.E, s, s.f(S.obj, "_interval"), S.iv), z3.BoolVal(s.f(S.obj, "_policy") == S.policy))


def check_inv(S, what, s):
    for name, f in invariant(S, s):
        S.U.oblige(f"{what}: {name}", s, f)
    S.U.oblige(f"{what}: function, interval and policy stay", s, settings_kept(S, s))


def result(S, what, k, s, v):
    S.U.oblige(f"{what} fails only with what the wrapped function raised", s, z3.BoolVal(k == "ret" or v is s.ghost.get("raised") or v == s.ghost.get("raised")))


def expires(S, what, s):
    """the timer running after `what` makes a pending call when it expires, and only then; checked by letting it expire"""
    U, E = S.U, S.E
    x = cur_timer(S, s)
    if x[3] is None:
        return                      # the timer that was there before
    s = s.assume(x[1])
    p = fresh_bool("pending_at_expiry")
    s, new = fresh_args(E, s)
    s = s.setf(S.obj, "_has_pending", SBool(p)).setf(S.obj, "_args", new[0]).setf(S.obj, "_kwargs", new[1])
    s = s.g(calls=(), want=new, nested=False, lastv=fresh_bool("lastv"), last=fresh_int("last"), reqv=fresh_bool("reqv"), req=fresh_int("req"), now=fresh_int("now"), raised=None)
    s = s.assume(s.ghost["last"] <= s.ghost["now"], s.ghost["req"] <= s.ghost["now"])
    s = assume_inv(S, s).assume(s.ghost["now"] >= x[2])
    ctx = U.ctx(TH)
    outs = [("ret", s2, v) for s2, v in E.call(s, x[3], CallArgs([]), ctx)] + [("raise", s2, e) for s2, e in ctx.sink]
    for k, s2, v in outs:
        result(S, f"{what}, then expiry", k, s2, v)
        n = len(s2.ghost["calls"])
        U.oblige(f"{what}, then expiry: a pending call is made, once, and none otherwise", s2, z3.If(p, z3.BoolVal(n == 1), z3.BoolVal(n == 0)))
        if s2.f(S.obj, "_timer").t.eq(x[0]):
            s2 = set_timer(s2, x[0], z3.BoolVal(False))     # the timer is over
        if s2.ghost["nested"] is False:
            U.oblige(f"{what}, then expiry: nothing is pending any more", s2, z3.Not(pending(S, s2)))
        check_inv(S, f"{what}, then expiry", s2)


@unit("C20", "a request: called at once when leading and idle, otherwise pending with its arguments and a running timer",
      ["Throttler.__call__", "Debouncer.__call__", "_ThrottlerBase._actually_call", "_ThrottlerBase._start_timer"], timeout=240)
def u_request(U):
    for cls, policy in KINDS:
        S, st = world(U, cls, policy)
        st = assume_inv(S, st)
        st, new = fresh_args(U.E, st)
        what = f"request ({cls}, {policy})"
        for k, s, v in request(S, st, new):
            result(S, what, k, s, v)
            calls = s.ghost["calls"]
            now_called = z3.Not(S.alive0) if policy == "leading" else z3.BoolVal(False)
            U.oblige(f"{what}: called at once exactly when leading and idle", s, z3.If(now_called, z3.BoolVal(len(calls) == 1), z3.BoolVal(len(calls) == 0)))
            if not calls:
                U.oblige(f"{what}: the call is pending", s, pending(S, s))
            elif s.ghost["nested"] is False:
                U.oblige(f"{what}: nothing is pending after the call", s, z3.Not(pending(S, s)))
            x = cur_timer(S, s)
            U.oblige(f"{what}: the timer runs", s, x[1])
            if cls == "Debouncer" and k == "ret":
                U.oblige(f"{what}: the interval starts anew with each request", s, x[2] >= st.ghost["now"] + dur(S.iv))
            elif cls == "Throttler":
                U.oblige(f"{what}: a running timer is left as it is", s, z3.Implies(S.alive0, z3.And(s.f(S.obj, "_timer").t == S.t0.t, x[2] == S.dead0)))
            check_inv(S, what, s)
            expires(S, what, s)
        U.must_fail("reachable: idle", st, S.alive0)
        U.must_fail("reachable: busy", st, z3.Not(S.alive0))


@unit("C20", "flush makes the pending call at once, and none otherwise", ["_ThrottlerBase.flush", "_ThrottlerBase._call_if_has_pending"], timeout=240)
def u_flush(U):
    for cls, policy in KINDS:
        S, st = world(U, cls, policy)
        st = assume_inv(S, st).g(flushing=True)
        for k, s, v in U.run(st, BM(U.E.class_attr_fn(st, S.obj, "flush"), S.obj), []):
            result(S, "flush", k, s, v)
            n = len(s.ghost["calls"])
            U.oblige("flush makes exactly the pending call", s, z3.If(S.pend0, z3.BoolVal(n == 1), z3.BoolVal(n == 0)))
            if n == 0:
                U.frame("a flush with nothing pending", st, s, GH)
                x = cur_timer(S, s)
                U.oblige("a flush with nothing pending leaves the timer alone", s, z3.And(s.f(S.obj, "_timer").t == S.t0.t, x[1] == S.alive0, x[2] == S.dead0))
            elif s.ghost["nested"] is False:
                U.oblige("nothing is pending after a flush", s, z3.Not(pending(S, s)))
            if n:
                U.oblige("after a flush the interval starts anew", s, z3.And(cur_timer(S, s)[1], cur_timer(S, s)[2] >= s.ghost["last"] + dur(S.iv)))
            check_inv(S, "flush", s)
            expires(S, "flush", s.g(flushing=False))


@unit("C20", "cancel drops the pending call and starts over as if no call had been made", ["_ThrottlerBase.cancel"])
def u_cancel(U):
    for cls, policy in KINDS:
        S, st = world(U, cls, policy)
        st = assume_inv(S, st)
        for k, s, v in U.run(st, BM(U.E.class_attr_fn(st, S.obj, "cancel"), S.obj), []):
            U.oblige("cancel does not fail", s, z3.BoolVal(k == "ret"))
            U.oblige("cancel makes no call", s, z3.BoolVal(len(s.ghost["calls"]) == 0))
            U.oblige("after cancel nothing is pending", s, z3.Not(pending(S, s)))
            U.oblige("after cancel no timer runs", s, z3.And(*[z3.Not(x[1]) for x in s.ghost["timers"]]))
            s = s.g(lastv=z3.BoolVal(False), reqv=z3.BoolVal(False))
            check_inv(S, "cancel", s)


@unit("C20", "throttled and debounced make idle instances of their function, interval and policy",
      ["_ThrottlerBase.__init__", "Throttler.__init__", "Debouncer.__init__", "throttled", "debounced"])
def u_init(U):
    E = U.E
    for maker, cls, dflt in (("throttled", "Throttler", True), ("debounced", "Debouncer", False)):
        for direct in (True, False, None):
            for lead in (None, True, False):
                S, st = world(U, cls, "leading")
                E.user_attr = lambda E, st, v, name, ctx, missing: [(st, SV(lib.attr_fun(name)(v.t)))] if v.cls == "wrapped" else None
                ms = SInt(fresh_int("ms"))
                c = U.ctx(TH)
                leading = dflt if lead is None else lead
                if direct is None:
                    kw = {} if lead is None else {"policy": "leading" if lead else "trailing"}
                    outs = E.instantiate(st, E.loader.cls(TH, cls), CallArgs([S.func, ms], None, kw), c)
                elif direct:
                    outs = E.call(st, E.fn(TH, maker), CallArgs([S.func, ms], None, {} if lead is None else {"leading": lead}), c)
                else:
                    outs = []
                    for s, d in E.call(st, E.fn(TH, maker), CallArgs([], None, {"timeout": ms, **({} if lead is None else {"leading": lead})}), c):
                        outs += E.call(s, d, CallArgs([S.func]), c)
                U.oblige(f"{maker} makes an instance", st, z3.BoolVal(len(outs) > 0 and not c.sink))
                for s, o in outs:
                    ok = isinstance(o, Ref) and s.obj(o).cls is E.loader.cls(TH, cls)
                    U.oblige(f"{maker} makes a {cls}", s, z3.BoolVal(ok))
                    if ok:
                        U.oblige(f"{cls}: the function, the interval in seconds and the policy are those given", s, z3.And(
                            lib.same(E, s, s.f(o, "__wrapped__"), S.func), lib.same(E, s, s.f(o, "_interval"), SV(lib.truediv(ms, 1000), "float")),
                            z3.BoolVal(s.f(o, "_policy") == ("leading" if leading else "trailing"))))
                        U.oblige(f"a new {cls} is idle with nothing pending", s, z3.And(z3.BoolVal(s.f(o, "_has_pending") is False), *[z3.Not(x[1]) for x in s.ghost["timers"][1:]]))
