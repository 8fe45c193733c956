"""C04 scenarios: callback shapes against declared signatures; emit argument checks."""
import itertools
from functools import partial

from psygnal import Signal, SignalInstance, EmitLoopError

BOUND = "exhaustive: signals of 0..3 arguments x callbacks with 0..4 required, 0..2 optional, *args, required/optional keyword-only parameters; 6 types for check_types"


class A: ...
class B(A): ...


TYPES = {"int": int, "str": str, "A": A, "B": B, "object": object, "bool": bool}


def make(kind, req, opt, var, kwreq, kwopt, annos, log):
    ps = []
    for i in range(req):
        an = f": {annos[i]}" if annos and i < len(annos) and annos[i] else ""
        ps.append(f"r{i}{an}")
    for i in range(opt):
        j = req + i
        an = f": {annos[j]}" if annos and j < len(annos) and annos[j] else ""
        ps.append(f"o{i}{an}=None")
    if var:
        ps.append("*va")
    elif kwreq or kwopt:
        ps.append("*")
    if kwreq:
        ps.append("kr")
    if kwopt:
        ps.append("ko=1")
    ns = {"log": log, **TYPES}
    if kind == "function":
        exec(f"def f({', '.join(ps)}):\n    log.append(1)", ns)
        return ns["f"], None
    exec(f"class K:\n    def m({', '.join(['self'] + ps)}):\n        log.append(1)", ns)
    k = ns["K"]()
    return k.m, k


def state(sig):
    return (len(sig), [s for s in sig._slots], sig._priority_in_use, sig._is_blocked, sig._is_paused, list(sig._args_queue))


def run(sc):
    if sc["t"] == "nargs":
        log = []
        cb, keep = make(sc["kind"], sc["req"], sc["opt"], sc["var"], sc["kwreq"], sc["kwopt"], None, log)
        nsig = sc["nsig"]
        sig = SignalInstance((object,) * nsig)
        other = lambda: None   # noqa: E731
        sig.connect(other)
        before = state(sig)
        bad = sc["req"] > nsig or sc["kwreq"]
        try:
            sig.connect(cb, priority=sc.get("prio", 0))
            err = None
        except Exception as e:
            err = e
        if bad:
            if not isinstance(err, ValueError):
                return f"{sc}: incompatible callback accepted or wrong error: {err!r}"
            if state(sig) != before:
                return f"{sc}: a refused connect changed the signal"
        else:
            if err is not None:
                return f"{sc}: compatible callback refused: {err!r}"
            sig.emit(*range(nsig))
            if log != [1]:
                return f"{sc}: called {len(log)} times"
        # without checking nothing is refused for the number of arguments
        s2 = SignalInstance((object,) * nsig, check_nargs_on_connect=False)
        try:
            s2.connect(cb)
        except Exception as e:
            return f"{sc}: connect(check_nargs=False) refused: {e!r}"
        if s2.connect(cb, check_nargs=False) is not cb:
            return "connect does not return the callback"
        return None
    if sc["t"] == "types":
        log = []
        cb, keep = make(sc["kind"], sc["req"], sc["opt"], 0, 0, 0, sc["annos"], log)
        spec = sc["spec"]
        sig = SignalInstance(tuple(TYPES[t] for t in spec), check_types_on_connect=bool(sc["default"]))
        n = min(len(spec), sc["req"] + sc["opt"])
        # the library's rule: each annotated parameter is a subclass of (accepts) the declared type
        bad = sc["req"] > len(spec)
        for i in range(n):
            a = sc["annos"][i] if i < len(sc["annos"]) else None
            if a and not issubclass(TYPES[a], TYPES[spec[i]]):
                bad = True
        before = state(sig)
        try:
            sig.connect(cb, **({} if sc["default"] else {"check_types": True}))
            err = None
        except Exception as e:
            err = e
        if bad and (not isinstance(err, ValueError) or state(sig) != before):
            return f"{sc}: callback with wrong types: {err!r}"
        if not bad and err is not None:
            return f"{sc}: refused although compatible: {err!r}"
        return None
    if sc["t"] == "emit":
        spec, args = sc["spec"], [{"int": 1, "str": "x", "A": A(), "B": B(), "object": object(), "bool": True}[t] for t in sc["args"]]
        log = []
        sig = SignalInstance(tuple(TYPES[t] for t in spec))
        sig.connect(lambda *a: log.append(a), check_nargs=False)
        if sc["paused"]:
            sig.pause()
        okn = len(args) == len(spec)
        okt = all(issubclass(TYPES[a], TYPES[s]) for a, s in zip(sc["args"], spec))
        cn, ct = sc["cn"], sc["ct"]
        fails = (cn and not okn) or (ct and not okt)
        try:
            (sig if sc.get("call") else sig.emit)(*args, check_nargs=cn, check_types=ct)
            err = None
        except Exception as e:
            err = e
        if fails:
            if not isinstance(err, TypeError):
                return f"{sc}: expected TypeError, got {err!r}"
            if log or sig._args_queue:
                return f"{sc}: rejected emission was delivered or queued"
            if sc["paused"]:
                sig.resume()
                if log:
                    return f"{sc}: rejected emission delivered at resume"
        else:
            if err is not None:
                return f"{sc}: unexpected {err!r}"
            if sc["paused"]:
                if log:
                    return "delivered while paused"
                sig.resume()
            if log != [tuple(args)]:
                return f"{sc}: delivered {log}"
        return None
    if sc["t"] == "noncallable":
        sig = SignalInstance(())
        try:
            sig.connect(sc["v"])
            return "non-callable connected"
        except TypeError:
            pass
        return None if len(sig) == 0 else "changed"


def exhaustive(tier):
    for v in (1, "x", [1], None):
        if v is not None:
            yield dict(t="noncallable", v=v)
    for kind, nsig, req, opt, var, kwreq, kwopt in itertools.product(("function", "method"), range(4), range(5), range(3), (0, 1), (0, 1), (0, 1)):
        yield dict(t="nargs", kind=kind, nsig=nsig, req=req, opt=opt, var=var, kwreq=kwreq, kwopt=kwopt, prio=req % 2)
    ts = ["int", "str", "A", "B", "bool", "object"]
    for spec in ([], ["int"], ["A"], ["int", "A"], ["B", "str"]):
        for args in itertools.chain([[]], ([a] for a in ts), ([a, b] for a in ts for b in ts), [["int", "str", "A"]]):
            for cn, ct, p in itertools.product((False, True), (False, True), (False, True)):
                yield dict(t="emit", spec=spec, args=args, cn=cn, ct=ct, paused=p, call=len(args) % 2)
    for spec in (["int"], ["A"], ["object"], ["B"], ["int", "A"], ["A", "int"]):
        for a in itertools.product([None] + ts, repeat=min(2, len(spec))):
            for req in (1, 2):
                for default in (0, 1):
                    yield dict(t="types", kind="function", spec=spec, annos=list(a), req=req, opt=0, default=default)
                    yield dict(t="types", kind="method", spec=spec, annos=list(a), req=req - 1, opt=1, default=default)
