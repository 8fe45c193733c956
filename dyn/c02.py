"""C02 scenarios: callback shapes x bound arguments x explicit max_args x emitted arguments; the
oracle computes the positional arguments the shape accepts from its description."""
import itertools
from functools import partial

from psygnal import Signal, SignalInstance
from psygnal._weak_callback import weak_callback

BOUND = "exhaustive: signals of 0..3 arguments, callbacks with 0..3 required, 0..2 optional, optional *args, 0..2 bound arguments, max_args None/0..3; all callback kinds"


def make(kind, req, opt, var, log):
    """-> (callback, keepalive)"""
    ps = [f"r{i}" for i in range(req)] + [f"o{i}='dflt'" for i in range(opt)] + (["*va"] if var else [])
    names = [f"r{i}" for i in range(req)] + [f"o{i}" for i in range(opt)]
    tup = "(" + "".join(n + "," for n in names) + ")" + ("+va" if var else "")
    ns = {"log": log}
    if kind in ("function", "partial", "partial2", "lambda"):
        if kind == "lambda":
            exec(f"f = lambda {', '.join(ps)}: log.append({tup})", ns)
        else:
            exec(f"def f({', '.join(ps)}):\n    log.append({tup})", ns)
        return ns["f"], ns["f"]
    src = f"class K:\n    def m(self{''.join(', ' + p for p in ps)}):\n        log.append({tup})\n"
    src += "    __call__ = m\n"
    exec(src, ns)
    k = ns["K"]()
    return {"method": k.m, "callable": k, "pmethod": k.m}[kind], k


def expected(req, opt, var, bound, max_args, args):
    """the tuple logged"""
    cap = None if var else req + opt - len(bound)
    if max_args is not None:
        n = max_args
    else:
        n = cap
    passed = args if n is None else args[:n]
    full = list(bound) + list(passed)
    nn = req + opt
    full_named = full[:nn] + ["dflt"] * (nn - len(full[:nn]))
    return tuple(full_named) + tuple(full[nn:])


class Obj:
    a = 0
    b = 0

    def __init__(self):
        self.a = "a0"
        self.b = "b0"


class Items(dict):
    pass


def run(sc):
    if sc["kind"] in ("setattr", "setitem"):
        return run_store(sc)
    if sc["kind"] == "rebind":
        return run_two(sc)
    if sc["kind"] == "bound-store":
        return run_bound_store(sc)
    log = []
    kind, req, opt, var = sc["kind"], sc["req"], sc["opt"], sc["var"]
    bound = tuple(sc["bound"])
    ma = sc["max_args"]
    cb, keep = make(kind, req, opt, var, log)
    target = partial(cb, *bound) if bound else cb
    if kind == "partial2" and len(bound) == 2:
        target = partial(partial(cb, bound[0]), bound[1])
    nsig = sc["nsig"]
    args = tuple(f"v{i}" for i in range(nsig))
    sig = SignalInstance((object,) * nsig)
    ok = req - len(bound) <= nsig and len(bound) <= (10 if var else req + opt)
    if not ok:
        return None
    if ma is not None:
        # explicit max_args: only meaningful when the callback can be called with that many
        eff = min(ma, nsig)
        if eff < req - len(bound) or (not var and eff > req + opt - len(bound)):
            return None
    sig.connect(target, max_args=ma)
    for rep in range(2):
        del log[:]
        if sc.get("fast"):
            sig.emit_fast(*args)
        else:
            sig.emit(*args)
        want = [expected(req, opt, var, bound, ma, args)]
        if log != want:
            return f"{kind}({req}+{opt}{'+*' if var else ''}) bound={bound} max_args={ma} emitted {args}: got {log}, expected {want}"
    if not (sig.disconnect(target) is None and len(sig) == 0):
        return "disconnect failed"
    return None


def run_two(sc):
    """several bindings of one function keep their own bound arguments and limits"""
    log = []
    sig = SignalInstance((object, object))

    class K:
        def m(self, *a):
            log.append((id(self), a))
    k1, k2 = K(), K()
    cbs = [partial(k1.m, "x"), k2.m, partial(k2.m, "y", "z"), lambda a: log.append(("l", (a,)))]
    ids = [id(k1), id(k2), id(k2), "l"]
    pre = [("x",), (), ("y", "z"), ()]
    lim = [None, 1, 0, 1]
    order = sc["order"]
    for i in order:
        sig.connect(cbs[i], max_args=lim[i], check_nargs=lim[i] is None)
    sig.emit("p", "q")
    want = [(ids[i], pre[i] + (("p", "q") if lim[i] is None else ("p", "q")[:lim[i]])) for i in order]
    if log != want:
        return f"bindings mixed up: {log} != {want}"
    return None


def run_store(sc):
    nsig, ma = sc["nsig"], sc["max_args"]
    args = tuple([f"v{i}" for i in range(nsig)])
    sig = SignalInstance((object,) * nsig)
    passed = args if ma is None else args[:ma]
    val = passed[0] if len(passed) == 1 else passed
    o, other = Obj(), Obj()
    if sc["kind"] == "setattr":
        sig.connect_setattr(o, "a", maxargs=ma)
        sig.emit(*args)
        if o.a != val or o.b != "b0" or vars(o).keys() != {"a", "b"} or vars(other) != {"a": "a0", "b": "b0"}:
            return f"connect_setattr maxargs={ma} emitted {args}: {vars(o)}, expected a={val!r}"
        sig.emit(*[None] * nsig)
        v2 = tuple([None] * len(passed))
        v2 = v2[0] if len(v2) == 1 else v2
        if o.a != v2 or o.b != "b0":
            return f"second emission stored {o.a!r}"
        sig.disconnect_setattr(o, "a", missing_ok=False)
    else:
        d, d2 = Items({"k": 0, "j": 1}), Items({"k": 0})
        sig.connect_setitem(d, "k", maxargs=ma)
        sig.emit(*args)
        if dict(d) != {"k": val, "j": 1} or dict(d2) != {"k": 0}:
            return f"connect_setitem maxargs={ma} emitted {args}: {dict(d)}, expected k={val!r}"
        sig.disconnect_setitem(d, "k", missing_ok=False)
    if len(sig):
        return "binding not disconnected"
    return None


def run_bound_store(sc):
    """partials of setattr, __setattr__ and __setitem__ with or without a bound value store what the partial itself stores"""
    how, given, nsig = sc["how"], sc["given"], sc["nsig"]

    class It(Obj):
        def __init__(self):
            super().__init__()
            self.d = {}

        def __setitem__(self, k, v):
            self.d[k] = v

    def bind(o):
        v = ("bound",) if given == 1 else ()
        if how == "setattr":
            return partial(setattr, o, "a", *v)
        if how == "__setattr__":
            return partial(o.__setattr__, "a", *v)
        if given == 2:
            return partial(o.__setitem__, v="bound")
        return partial(o.__setitem__, "k", *v)
    if given == 2 and how != "__setitem__":
        return None
    args = tuple(f"v{i}" for i in range(nsig))
    o, want = It(), It()
    if given == 1:
        bind(want)()
    elif given == 2:
        bind(want)(args[0])
    else:
        return None
    sig = SignalInstance((object,) * nsig)
    # the number of arguments the partial still takes
    sig.connect(bind(o), max_args=0 if given == 1 else 1, check_nargs=False)
    sig.emit(*args)
    if vars(o) != vars(want):
        return f"partial {how} (bound value: {given}) emitted {args}: {vars(o)}, the partial itself gives {vars(want)}"
    return None


def exhaustive(tier):
    for how in ("setattr", "__setattr__", "__setitem__"):
        for given in (1, 2):
            for nsig in (1, 2):
                yield dict(kind="bound-store", how=how, given=given, nsig=nsig)
    for kind in ("setattr", "setitem"):
        for nsig in range(4):
            for ma in (None, 0, 1, 2, 3):
                yield dict(kind=kind, nsig=nsig, max_args=ma)
    for order in itertools.permutations(range(4)):
        yield dict(kind="rebind", order=list(order))
    for kind in ("function", "lambda", "method", "callable", "partial2"):
        for nsig, req, opt, var, nb in itertools.product(range(4), range(4), range(3), (0, 1), range(3)):
            for ma in (None, 0, 1, 2, 3):
                for fast in (0, 1):
                    if kind == "partial2" and nb != 2:
                        continue
                    yield dict(kind=kind, nsig=nsig, req=req, opt=opt, var=var, bound=[f"b{i}" for i in range(nb)], max_args=ma, fast=fast)
