"""C06 scenarios: callbacks that raise (or re-emit) by table; oracle for the error surfaced and for
the signal being idle afterwards."""
import itertools

from psygnal import EmitLoopError, Signal, SignalInstance

BOUND = "exhaustive: 3 modes x 1..3 slots x failing slot x 5 exception types x emit/emit_fast x nested depth 0..2; random: tables"


class MyErr(Exception):
    pass


class MyBase(BaseException):
    pass


EXC = {"value": ValueError, "my": MyErr, "rec": RecursionError, "base": MyBase, "kbd": KeyboardInterrupt, "loop": None}


class HostileOwner:
    s = Signal(object, reemission="queued")

    def __init__(self, how):
        self.how = how

    def __bool__(self):
        if self.how == "bool":
            raise ValueError("ambiguous truth value")
        return self.how != "false"


class HostileErr(Exception):
    def __str__(self):
        raise TypeError("no str")
    __repr__ = __str__


class HostileArg:
    def __repr__(self):
        raise RuntimeError("no repr")
    __str__ = __repr__


def run_hostile(sc):
    """an error surfaces as EmitLoopError whatever the objects its message shows do"""
    o = HostileOwner(sc["hostile"])
    exc = HostileErr() if sc["hostile"] == "str" else KeyError(1)
    arg = HostileArg() if sc["hostile"] == "arg" else 1
    nested = [sc["nested"]]

    def f(x):
        if nested[0]:
            nested[0] -= 1
            o.s.emit(arg)
            return
        raise exc
    o.s.connect(f)
    try:
        getattr(o.s, sc["how"])(arg)
    except EmitLoopError as e:
        if e.__cause__ is not exc:
            return f"cause is {type(e.__cause__).__name__}"
    except BaseException as e:
        return f"surfaced as {type(e).__name__} instead of EmitLoopError"
    else:
        return "nothing raised"
    return None


def run(sc):
    if "hostile" in sc:
        return run_hostile(sc)
    mode, n = sc["mode"], sc["n"]
    sigs = [SignalInstance((int,), reemission=mode, name=f"s{i}") for i in range(sc.get("depth", 0) + 1)]
    log = []
    original = []
    active = [True]

    def mk(d, s):
        def f(v):
            log.append((d, s, v))
            if not active[0]:
                return
            if s == sc["slot"]:
                if d + 1 < len(sigs):
                    getattr(sigs[d + 1], sc["how"])(v)
                elif sc.get("reemit") and v < 3:
                    getattr(sigs[d], sc["how"])(v + 1)
                else:
                    e = (EXC[sc["exc"]] or ValueError)("boom")
                    original.append(e)
                    raise e
        return f
    keep = [[mk(d, s) for s in range(n)] for d in range(len(sigs))]
    for d, sg in enumerate(sigs):
        for s in range(n):
            sg.connect(keep[d][s])
    before = Signal._current_emitter
    marker = SignalInstance(())
    err = None
    ctx = Signal._emitting(marker) if sc.get("outer") else None
    if ctx:
        ctx.__enter__()
    want_emitter = Signal.current_emitter()
    try:
        getattr(sigs[0], sc["how"])(0)
    except BaseException as e:
        err = e
    if Signal.current_emitter() is not want_emitter:
        return "current emitter not restored"
    if ctx:
        ctx.__exit__(None, None, None)
    if not original:
        return "harness: nothing raised"
    o = original[0]
    if len(original) != 1:
        return f"the failing callback ran {len(original)} times"
    if isinstance(o, RecursionError):
        e = err
        if not isinstance(e, RecursionError):
            return f"RecursionError surfaced as {e!r}"
        seen = 0
        while e is not o and e is not None and seen < 50:
            e = e.__cause__
            seen += 1
        if e is not o:
            return "RecursionError lost its cause chain"
    elif isinstance(o, Exception):
        if type(err) is not EmitLoopError:
            return f"surfaced as {err!r} instead of EmitLoopError"
        if err.__cause__ is not o:
            return f"cause is {err.__cause__!r}"
    elif err is not o:
        return f"BaseException surfaced as {err!r}"
    # nothing after the failing callback of that emission is called
    if sc.get("depth", 0) == 0 and not sc.get("reemit"):
        if log != [(0, s, 0) for s in range(sc["slot"] + 1)]:
            return f"calls {log}"
    for sg in sigs:
        if sg._emit_queue or sg._recursion_depth or sg._max_recursion_depth:
            return f"signal not idle: queue {list(sg._emit_queue)} depth {sg._recursion_depth} max {sg._max_recursion_depth}"
    active[0] = False
    for d, sg in enumerate(sigs):
        for how in ("emit", "emit_fast"):
            del log[:]
            getattr(sg, how)(7)
            if log != [(d, s, 7) for s in range(n)]:
                return f"next emission delivered {log}"
    # and the modes still work after the failure
    sg = sigs[0]
    del log[:]
    extra = []

    def re(v):
        extra.append(v)
        if v < 2:
            sg.emit(v + 1)
    sg.connect(re)
    sg.emit(0)
    if extra != [0, 1, 2]:
        return f"re-emission after a failure: {extra}"
    return None


def exhaustive(tier):
    for hostile, how, nested in itertools.product(("bool", "false", "str", "arg", "none"), ("emit", "emit_fast"), (0, 1, 2)):
        yield dict(hostile=hostile, how=how, nested=nested)
    for mode, n, how, exc in itertools.product(("queued", "immediate", "latest-only"), (1, 2, 3), ("emit", "emit_fast"), EXC):
        for slot in range(n):
            for depth in (0, 1, 2):
                for outer in (0, 1):
                    yield dict(mode=mode, n=n, how=how, exc=exc, slot=slot, depth=depth, outer=outer)
            yield dict(mode=mode, n=n, how=how, exc=exc, slot=slot, reemit=1)
