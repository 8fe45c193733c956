"""C12: callbacks connected for a thread; the per-thread queues.

queue.Queue is an external FIFO: each queue object has an unbounded history `H(q, i)` of the items
ever put into it; ghost `hd`/`tl` count the items taken from / put into the queue being emitted."""
from .common import *

QC = "psygnal._queue"
CUR = z3.Const("current_thread", V)
MAIN = z3.Const("main_thread", V)


def queues(E, st):
    """QueuedCallback._GLOBAL_QUEUE: an arbitrary map thread -> queue, one queue per thread."""
    cls = E.loader.cls(QC, "QueuedCallback")

    def factory(E, st, ca, ctx, fn):
        q = fresh_v("newqueue")
        st = st.assume(z3.ForAll([TH], val(TH) != q))
        return [(st.g(created=st.ghost.get("created", ()) + (q,)), SV(q, "Queue"))]
    TH = z3.Const("th", V)
    T2 = z3.Const("th2", V)
    E.stubs["queue.Queue"] = factory
    [(st, ref)] = E.class_value(st, cls, "_GLOBAL_QUEUE", None)
    st = E.set_class_value(st, cls, "_GLOBAL_QUEUE", ref)
    has, val = fresh_fun("gq_has", V, z3.BoolSort()), fresh_fun("gq_val", V, V)
    n = fresh_int("gq_n")
    st = st.assume(n >= 0, z3.ForAll([TH, T2], z3.Implies(z3.And(has(TH), has(T2), TH != T2), val(TH) != val(T2))))
    st = st.setd(ref, DictS(lambda t: has(t), lambda t: SV(val(t), "Queue"), n))
    for m in ("put", "get", "empty", "qsize", "put_nowait", "get_nowait"):
        E.schema[("Queue", m)] = (lambda m: lambda E, st, v, ctx: [(st, Partial(Ext("Queue." + m), [v], {}))])(m)
    E.assumptions.add("queue.Queue is a thread-safe FIFO; a thread's queue is emptied by one emit_queued at a time")
    return st, ref, has, val


def wrapped_cb(E, st):
    """The real callback: calling it is recorded; it may raise."""
    base_schema(E)
    wc = weak_callback_cls(E)

    def cb(E, st, ca, ctx, fn):
        args = ca.pos[1] if len(ca.pos) > 1 else ca.kw["args"]
        st = st.g(direct=st.ghost["direct"] + ((ca.pos[0], args),))
        raise_user(E, st, ctx)
        return [(st, None)]
    E.stubs[f"{WCB}:WeakCallback.cb"] = cb
    return SV(fresh_v("wrapped"), wc)


@unit(["C12"], "a callback for a thread is called directly on that thread, and otherwise queued once for it",
      ["QueuedCallback.cb", "QueuedCallback.dereference"])
def u_cb(U):
    E = U.E
    st = St().g(direct=(), puts=())
    w = wrapped_cb(E, st)
    st, ref, has, val = queues(E, st)
    cls = E.loader.cls(QC, "QueuedCallback")
    th = SV(fresh_v("thread"), "thread")
    st, qc = E.alloc(st, cls, {"_wrapped": w, "_cbthread": th, "_key": SV(fresh_v("key"), "str"), "priority": SInt(fresh_int("p")),
                               "_alive": True, "_max_args": None, "_on_ref_error": "warn"})

    def put(E, st, ca, ctx, fn):
        return [(st.g(puts=st.ghost["puts"] + ((ca.pos[0], ca.pos[1]),)), None)]
    E.stubs["Queue.put"] = put
    E.stubs["Queue.put_nowait"] = put
    args = SV(fresh_v("args"), "tuple")
    pre = st
    same_thread = th.t == CUR
    for kind, s, v in U.run(st, f"{QC}:QueuedCallback.cb", [qc, args]):
        direct, puts = s.ghost["direct"], s.ghost["puts"]
        U.oblige("on its own thread the callback is called at once, once; otherwise not here", s,
                 z3.If(same_thread, z3.BoolVal(len(direct) == 1), z3.BoolVal(len(direct) == 0)))
        U.oblige("on another thread it is queued exactly once; otherwise not at all", s,
                 z3.If(same_thread, z3.BoolVal(len(puts) == 0), z3.BoolVal(len(puts) == 1)))
        if direct:
            U.oblige("the wrapped callback is called with the emission's arguments", s,
                     z3.And(lib.same(E, s, direct[0][0], w), lib.same(E, s, direct[0][1], args)))
        post = s.d(ref)
        t = fresh_v("t_other")
        if puts:
            q, item = puts[0]
            U.oblige("it is put on the queue of the callback's own thread", s,
                     z3.And(lib.dict_has(E, s, post, th), lib.same(E, s, lib.dict_val(E, s, post, th), q)))
            U.oblige("what is queued is the callback with this emission's arguments", s,
                     z3.And(z3.BoolVal(isinstance(item, tuple) and len(item) == 2), same_cb(E, s, item[0], w),
                            lib.same(E, s, item[1], args)) if isinstance(item, tuple) else z3.BoolVal(False))
        U.oblige("the queues of other threads and an existing queue of this thread stay in place", s,
                 z3.Implies(has(t), z3.And(lib.dict_has(E, s, post, SV(t)), lib.same(E, s, lib.dict_val(E, s, post, SV(t)), SV(val(t), "Queue")))))
        x = fresh_v("t_new")
        if kind == "raise":
            U.oblige("only the directly called callback can raise", s, z3.BoolVal(v == s.ghost.get("raised")))
        U.oblige("no queue is made for a thread other than the callback's", s,
                 z3.Implies(z3.And(lib.dict_has(E, s, post, SV(x)), z3.Not(has(x))), x == th.t))
        U.frame("QueuedCallback.cb", pre, s, {("d", ref.oid), ("g", "direct"), ("g", "puts"), ("g", "created"), ("g", "raised")})
    U.must_fail("queueing is reachable", st, same_thread)
    E.stubs[f"{WCB}:WeakCallback.dereference"] = lambda E, st, ca, ctx, fn: [(st, SV(DEREF(to_term(ca.pos[0]))))]
    for kind, s, v in U.run(st, f"{QC}:QueuedCallback.dereference", [qc]):
        U.oblige("dereferencing gives what the wrapped callback dereferences to", s,
                 z3.And(z3.BoolVal(kind == "ret"), lib.same(E, s, v, SV(DEREF(w.t))) if kind == "ret" else z3.BoolVal(False)))
        U.frame("dereference", pre, s, set())


DEREF = z3.Function("deref", V, V)
CBM = z3.Function("attr_cb", V, V)


def same_cb(E, s, f, w):
    """f is the bound method `cb` of the wrapped callback"""
    if isinstance(f, BM):
        return z3.And(z3.BoolVal(getattr(f.fn, "qual", "").endswith(".cb")), lib.same(E, s, f.self_, w))
    return z3.BoolVal(False)


@unit(["C12"], "the thread asked for: main by default, the connecting thread for 'current', else the one given",
      ["QueuedCallback.__init__"])
def u_init(U):
    E = U.E
    st = St().g(direct=())
    w = wrapped_cb(E, st)
    for a, h in (("_key", "str"), ("_max_args", "any"), ("_alive", "bool"), ("_on_ref_error", "str")):
        E.schema[("WeakCallback", a)] = h
    given = SV(fresh_v("given"), "thread")
    isthr = fresh_bool("is_thread")
    for x in (None, "main", "current"):
        st = st.assume(given.t != to_term(x))
    E.schema[("isinstance", "threading.Thread")] = lambda E, st, v: isthr
    E.schema[("isinstance", "Thread")] = lambda E, st, v: isthr
    cls = E.loader.cls(QC, "QueuedCallback")
    A = lib.attr_fun
    for th, name in ((None, "none"), ("main", "main"), ("current", "current"), (given, "given"), ("omitted", "omitted")):
        ca = [w] if th == "omitted" else [w, th]
        for kind, s, v in instantiate(U, E, st, cls, ca):
            bad = z3.And(z3.BoolVal(name == "given"), z3.Not(isthr))
            U.oblige(f"something that is not a thread is refused with TypeError, nothing else is [{name}]", s,
                     z3.And(bad, U.exc_is(s, v, "TypeError")) if kind == "raise" else z3.Not(bad))
            if kind == "raise":
                continue
            want = given.t if name == "given" else (CUR if name == "current" else MAIN)
            U.oblige(f"the callback's thread is the one asked for [{name}]", s, to_term(s.f(v, "_cbthread")) == want)
            U.oblige("it wraps the callback given", s, lib.same(E, s, s.f(v, "_wrapped"), w))
            U.oblige("it has the key of the wrapped callback (so it can be found and disconnected)", s,
                     to_term(s.f(v, "_key")) == A("_key")(w.t))
            U.oblige("it has the priority of the wrapped callback", s, zi(s.f(v, "priority")) == V.vi(A("priority")(w.t)))
            U.oblige("it is alive exactly if the wrapped callback is", s, zb(s.f(v, "_alive")) == V.vb(A("_alive")(w.t)))
            U.frame("QueuedCallback()", st, s, set())


def instantiate(U, E, st, cls, pos):
    ctx = U.ctx(cls.mod.name)
    out = [("ret", s, v) for s, v in E.instantiate(st, cls, CallArgs(pos), ctx)]
    return out + [("raise", s, v) for s, v in ctx.sink]


@unit(["C12", "C06"], "emit_queued runs what is queued for the thread, once each, in order; an error loses none of the others",
      ["emit_queued"])
def u_emit_queued(U):
    E = U.E
    for given in (False, True):
        E.stubs.clear()
        base_schema(E)
        H = fresh_fun(f"H", V, z3.IntSort(), V)     # history of each queue: the items ever put
        hd0, tl0 = fresh_int("hd"), fresh_int("tl")
        st = St().assume(hd0 >= 0, hd0 <= tl0).g(hd=SInt(hd0), tl=SInt(tl0), ex=SInt(hd0))
        st, ref, has, val = queues(E, st)
        th = SV(fresh_v("thread"), "thread") if given else SV(CUR, "thread")
        st = st.assume(th.t != V.none)
        CB, ARGS = fresh_fun("cb_of", V, V), fresh_fun("args_of", V, V)
        q0 = val(th.t)

        def own(E, st, q):
            E.obligation("only the queue of the thread concerned is read", st,
                         z3.And(lib.dict_has(E, st, st.d(ref), th), lib.same(E, st, lib.dict_val(E, st, st.d(ref), th), q)))
            E.obligation("an existing queue of the thread is the one read", st, z3.Implies(has(th.t), lib.same(E, st, q, SV(q0))))

        def others(E, st):
            """other threads may put more items at any time"""
            t2 = fresh_int("tl")
            return st.assume(t2 >= zi(st.ghost["tl"])).g(tl=SInt(t2))

        def empty(E, st, ca, ctx, fn):
            own(E, st, ca.pos[0])
            st = others(E, st)
            return [(st, mkbool(zi(st.ghost["hd"]) == zi(st.ghost["tl"])))]

        def qsize(E, st, ca, ctx, fn):
            own(E, st, ca.pos[0])
            st = others(E, st)
            return [(st, mkint(zi(st.ghost["tl"]) - zi(st.ghost["hd"])))]

        def get(E, st, ca, ctx, fn, block=True):
            own(E, st, ca.pos[0])
            hd = zi(st.ghost["hd"])
            if block and not (len(ca.pos) > 1 or ca.kw):
                E.obligation("an item is only taken when there is one", st, hd < zi(st.ghost["tl"]))
            else:
                c = st.assume(hd == zi(st.ghost["tl"]))
                s, e = E.new_exc(c, Ext("queue.Empty"), ())
                ctx.sink.append((s, e))
                st = st.assume(hd < zi(st.ghost["tl"]))
            E.obligation("every item taken earlier has been run", st, zi(st.ghost["ex"]) == hd)
            item = H(to_term(ca.pos[0]), hd)
            st = st.g(hd=mkint(hd + 1), cur=SV(item), q=ca.pos[0])
            return [(st, (SV(CB(item), "qcb"), SV(ARGS(item), "tuple")))]

        def call(E, st, f, ca, ctx):
            g = st.ghost
            if "cur" not in g:
                E.obligation("only queued callbacks are called", st, z3.BoolVal(False))
                return [(st, None)]
            ex = zi(g["ex"])
            E.obligation("each queued callback is run exactly once, in the order queued, with its own arguments", st,
                         z3.And(ex == zi(g["hd"]) - 1, f.t == CB(H(to_term(g["q"]), ex)), z3.BoolVal(len(ca.pos) == 1 and not ca.kw and ca.star is None),
                                lib.same(E, st, ca.pos[0], SV(ARGS(H(to_term(g["q"]), ex))))))
            st = st.g(ex=mkint(ex + 1))
            # the callback may itself emit the queue, or cause more to be queued
            h2, t2 = fresh_int("hd"), fresh_int("tl")
            st = st.assume(h2 >= zi(st.ghost["hd"]), t2 >= zi(st.ghost["tl"]), t2 >= h2).g(hd=SInt(h2), tl=SInt(t2), ex=SInt(h2))
            for nm in ("RecursionError", ELE, "user.Exception", "user.BaseException"):
                s, e = E.new_exc(st, exc_cls(E, nm), ())
                ctx.sink.append((s.g(raised=e), e))
            return [(st, None)]
        E.stubs.update({"Queue.empty": empty, "Queue.get": get, "Queue.qsize": qsize,
                        "Queue.get_nowait": lambda *a: get(*a, block=False)})
        E.schema[("qcb", "()")] = call

        def spec(L):
            if "hd" not in L.st0.ghost:
                return None
            up = lambda v0: (lambda m: (SInt(m), [m >= zi(v0)]))(fresh_int("up"))
            ge = lambda E, s, v0, v: zi(v) >= zi(v0)
            anyv = lambda v0: (SV(fresh_v("any")), [])
            tt = lambda E, s, v0, v: z3.BoolVal(True)

            def inv(s, m):
                g = s.ghost
                return [("everything taken has been run", zi(g["ex"]) == zi(g["hd"])), ("no more taken than put", zi(g["hd"]) <= zi(g["tl"]))]
            return {"inv": inv, "rel": {("g", "hd"): (up, ge), ("g", "tl"): (up, ge), ("g", "ex"): (up, ge),
                                        ("g", "cur"): (anyv, tt), ("g", "q"): (anyv, tt)}}
        E.loop_specs[f"{QC}:emit_queued"] = spec
        pre = st
        for kind, s, v in U.run(st, f"{QC}:emit_queued", [th] if given else []):
            g = s.ghost
            U.oblige("everything taken from the queue has been run", s, zi(g["ex"]) == zi(g["hd"]))
            if kind == "ret":
                U.oblige("on return the queue has been emptied", s, zi(g["hd"]) == zi(g["tl"]))
            else:
                e = g.get("raised")
                U.oblige("only a queued callback's error ends the emission early", s, z3.BoolVal(e is not None))
                if e is None:
                    continue
                cause = s.obj(v).fields.get("__cause__")
                if U.exc_is(s, e, "Exception"):
                    U.oblige("the error of a queued callback surfaces as EmitLoopError caused by it", s,
                             z3.BoolVal(U.exc_is(s, v, ELE) and cause == e))
                else:
                    U.oblige("BaseException propagates unchanged", s, z3.BoolVal(v == e))
            U.frame("emit_queued", pre, s, {("d", ref.oid), ("g", "hd"), ("g", "tl"), ("g", "ex"), ("g", "cur"), ("g", "q"), ("g", "raised"), ("g", "created")})
        U.must_fail("precondition satisfiable", st, z3.BoolVal(False))


QT = "psygnal.qt"


@unit("C12", "emitting the queue from Qt: one running timer for the thread, at the interval asked for, that emits the queue once per tick; others untouched; stopping stops it",
      ["start_emitting_from_queue", "stop_emitting_from_queue"])
def u_qt(U):
    E = U.E
    E.assumptions.add("QTimer (Qt): start/stop/setInterval/isActive do what they say; `timeout` calls what is connected to it")
    for what in ("start", "stop"):
        for given in (False, True):
            base_schema(E)
            has, val = fresh_fun("tm_has", V, z3.BoolSort()), fresh_fun("tm_val", V, V)
            n = fresh_int("tm_n")
            th = SV(fresh_v("thread"), "thread") if given else SV(CUR, "thread")
            T1, T2 = z3.Consts("th1 th2", V)
            act0, int0 = fresh_bool("active"), fresh_int("interval")
            st = St().assume(n >= 0, th.t != V.none, z3.ForAll([T1, T2], z3.Implies(z3.And(has(T1), has(T2), T1 != T2), val(T1) != val(T2))),
                             z3.ForAll([T1], lib.is_object(val(T1)), patterns=[val(T1)]))
            st, ref = E.alloc(st, Ext("builtins.dict"), data=DictS(lambda t: has(t), lambda t: SV(val(t), "QTimer"), n), kind="dict")
            E.schema[("glob", f"{QT}._TIMERS")] = lambda E, st: (st, ref)
            E.stubs["threading.current_thread"] = lambda E, st, ca, ctx, f: [(st, SV(CUR, "thread"))]
            st = st.g(active=SBool(act0), interval=SInt(int0), conns=(), made=())
            new = fresh_v("newtimer")

            def mktimer(E, st, ca, ctx, f):
                if st.ghost["made"]:
                    raise Unsupported("several timers made")
                st = st.assume(lib.is_object(new), z3.ForAll([T1], val(T1) != new)).g(made=(new,))
                return [(s.g(active=False) if b else s, SV(new, "QTimer")) for s, b in E.split(st, z3.Not(has(th.t)))]
            E.stubs["qtpy.QtCore.QTimer"] = mktimer
            mine = lambda st, v: z3.If(has(th.t), v.t == val(th.t), v.t == new)

            def meth(m):
                def h(E, st, f, ca, ctx):
                    E.obligation(f"only the thread's own timer is used ({m})", st, mine(st, f.self_))
                    g = lambda nm, i=0: ca.pos[i] if len(ca.pos) > i else ca.kw.get(nm)
                    if m == "isActive":
                        return [(st, st.ghost["active"])]
                    if m == "setInterval":
                        return [(st.g(interval=g("msec")), None)]
                    if m == "start":
                        x = g("msec")
                        return [(st.g(active=True, **({} if x is None else {"interval": x})), None)]
                    if m == "stop":
                        return [(st.g(active=False), None)]
                    if m == "connect":
                        return [(st.g(conns=st.ghost["conns"] + tuple(ca.pos)), None)]
                    return [(st, None)]
                return h

            for m in ("isActive", "setInterval", "start", "stop", "setTimerType"):
                E.schema[("QTimer", m)] = (lambda m: lambda E, st, v, ctx: [(st, Partial(Ext("QTimer." + m), [v], {}))])(m)
                E.stubs["QTimer." + m] = (lambda m: lambda E, st, ca, ctx, fn: meth(m)(E, st, type("F", (), {"self_": ca.pos[0]}), CallArgs(ca.pos[1:], ca.kw), ctx))(m)
            owner = {}
            E.schema[("QTimer", "timeout")] = lambda E, st, v, ctx: [(st, SV(owner.setdefault(str(v.t), (fresh_v("timeout"), v))[0], "timeout"))]
            E.schema[("timeout", "connect")] = lambda E, st, v, ctx: [(st, Partial(Ext("QTimer.connect"), [[w for t, w in owner.values() if z3.eq(t, v.t)][0]], {}))]
            E.stubs["QTimer.connect"] = lambda E, st, ca, ctx, fn: meth("connect")(E, st, type("F", (), {"self_": ca.pos[0]}), CallArgs(ca.pos[1:], ca.kw), ctx)
            ms = SInt(fresh_int("msec"))
            kw = {"thread": th} if given else {}
            if what == "start":
                kw["msec"] = ms
            pre = st
            for kind, s, v in U.run(st, f"{QT}:{what}_emitting_from_queue", [], kw):
                U.oblige("no error", s, z3.BoolVal(kind == "ret"))
                if kind != "ret":
                    continue
                d = s.d(ref)
                d = lib.dict_to_s(E, d)
                x = fresh_v("x")
                if what == "start":
                    U.oblige("the thread has a timer, other threads' are as before", s, z3.And(
                        d.has(x) == z3.Or(has(x), x == th.t), z3.Implies(has(x), to_term(d.val(x)) == val(x)),
                        z3.Implies(z3.Not(has(th.t)), to_term(d.val(th.t)) == new)))
                    U.oblige("its timer runs at the interval asked for", s, z3.And(zb(s.ghost["active"]), zi(s.ghost["interval"]) == zi(ms)))
                    cs = s.ghost["conns"]
                    if any(isinstance(c, (Fn, Partial)) and not getattr(c, "qual", "").endswith("_queue:emit_queued") for c in cs):
                        raise Unsupported("another function is connected to the timer")
                    U.oblige("a new timer emits the queue, once per tick; one that was there is not connected again", s, z3.And(
                        z3.If(has(th.t), z3.BoolVal(len(cs) == 0), z3.BoolVal(len(cs) == 1)), *[z3.BoolVal(isinstance(c, Fn) and c.qual.endswith("_queue:emit_queued")) for c in cs]))
                else:
                    U.oblige("no timer is made, connected or forgotten", s, z3.And(z3.BoolVal(s.ghost["made"] == () and s.ghost["conns"] == ()), d.has(x) == has(x), z3.Implies(has(x), to_term(d.val(x)) == val(x))))
                    U.oblige("the thread's timer does not run any more", s, z3.Implies(has(th.t), z3.Not(zb(s.ghost["active"]))))
                U.frame(what, pre, s, {("d", ref.oid), ("g", "active"), ("g", "interval"), ("g", "conns"), ("g", "made")})
            U.must_fail("satisfiable", st, z3.Not(has(th.t)))
