"""C08 scenarios: histories of connecting owners of every kind, dropping them, emitting; against a liveness model."""
import functools
import gc
import itertools
import types
import warnings
import weakref

from psygnal import SignalInstance

BOUND = "exhaustive: all histories of <=2 connections (17 kinds) then kill/emit/disconnect of <=3 operations; random: <=14 operations, 4 owners"

KINDS = ["method", "callable", "setattr", "setitem", "partial_m", "builtin", "func", "partial_f", "slots_m", "slots_c", "dyn", "thread_m", "slots_sa", "slots_si", "partial_c", "partial_ck", "partial_mk"]
STRONG = {"func", "partial_f", "slots_m", "slots_c", "slots_sa", "slots_si"}


class Tracked:
    """dies => recorded"""
    def __del__(self):
        self.on_del()


class Owner:
    def __init__(self, log, i):
        object.__setattr__(self, "log", log)
        object.__setattr__(self, "i", i)

    def m(self, x):
        self.log.append((self.i, "m", x))

    def pm(self, k, x, w=None):
        self.log.append((self.i, "pm", k, x) + ((w,) if w is not None else ()))

    def __call__(self, x, *r, k=None):
        self.log.append((self.i, "call", x) + r + ((k,) if k is not None else ()))

    def __setitem__(self, k, v):
        self.log.append((self.i, "item", k, v))

    def __setattr__(self, k, v):
        self.log.append((self.i, "attr", k, v))
    attr = 0


class WList(list):
    def __init__(self, log, i):
        self.lg, self.i = log, i


class Slots:
    __slots__ = ("log", "i")
    attr = 0

    def __init__(self, log, i):
        object.__setattr__(self, "log", log)
        object.__setattr__(self, "i", i)

    m, pm, __call__, __setitem__, __setattr__ = Owner.m, Owner.pm, Owner.__call__, Owner.__setitem__, Owner.__setattr__


def run(sc):
    log = []
    sig = SignalInstance((int,))
    owners, conns, want = {}, [], []     # conns: list of (key, owner index, kind, entry function)
    gc.collect() if sc.get("gc") else None

    def ensure(i, kind):
        slotted = kind.startswith("slots")
        o = owners.get(i)
        if o is None or isinstance(o, Slots) != slotted:
            i = i + (100 if slotted else 0)
            o = owners.get(i)
            if o is None:
                o = owners[i] = (Slots if slotted else Owner)(log, i)
        return i, o

    def connect(i, kind, ref_error, prio):
        i, o = ensure(i, kind)
        kw = {"priority": prio}
        if ref_error:
            kw["on_ref_error"] = ref_error
        base = kind.split("_")[-1] if kind.startswith("slots") or kind == "thread_m" else kind
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                if base == "m" or base == "method":
                    if kind == "thread_m":
                        kw["thread"] = "current"
                    sig.connect(o.m, **kw)
                    ent = lambda x: (i, "m", x)   # noqa: E731
                elif base in ("callable", "c"):
                    sig.connect(o, **kw)
                    ent = lambda x: (i, "call", x)   # noqa: E731
                elif base in ("setattr", "sa"):
                    sig.connect_setattr(o, "attr", 1, **kw)
                    ent = lambda x: (i, "attr", "attr", x)   # noqa: E731
                elif base in ("setitem", "si"):
                    sig.connect_setitem(o, "k", 1, **kw)
                    ent = lambda x: (i, "item", "k", x)   # noqa: E731
                elif base == "partial_m":
                    sig.connect(functools.partial(o.pm, 7), **kw)
                    ent = lambda x: (i, "pm", 7, x)   # noqa: E731
                elif base == "partial_mk":
                    sig.connect(functools.partial(o.pm, 7, w=8), **kw)
                    ent = lambda x: (i, "pm", 7, x, 8)   # noqa: E731
                elif base == "partial_c":
                    sig.connect(functools.partial(o, 4), **kw)
                    ent = lambda x: (i, "call", 4, x)   # noqa: E731
                elif base == "partial_ck":
                    sig.connect(functools.partial(o, k=6), **kw)
                    ent = lambda x: (i, "call", x, 6)   # noqa: E731
                elif base == "builtin":
                    wl = owners.get(("wl", i))
                    if wl is None:
                        wl = owners[("wl", i)] = WList(log, i)
                    sig.connect(wl.append, max_args=1, **kw)
                    conns.append([i, kind, None, prio])
                    return None
                elif base == "func":
                    def f(x, i=i):
                        log.append((i, "func", x))
                    sig.connect(f, **kw)
                    ent = lambda x: (i, "func", x)   # noqa: E731
                elif base == "partial_f":
                    def g(k, x, i=i):
                        log.append((i, "pf", k, x))
                    sig.connect(functools.partial(g, 3), **kw)
                    ent = lambda x: (i, "pf", 3, x)   # noqa: E731
                elif base == "dyn":
                    sig.connect(types.MethodType(Owner.m, o), **kw)
                    ent = lambda x: (i, "m", x)   # noqa: E731
            except TypeError:
                if kind.startswith("slots") and ref_error == "raise":
                    return None
                return f"connect {kind} raised TypeError"
            if kind.startswith("slots") and ref_error == "raise":
                return f"on_ref_error='raise' ignored for {kind}"
            nw = sum("failed to create weakref" in str(x.message) for x in w)
            wantw = kind.startswith("slots") and ref_error in (None, "warn")
            if bool(nw) != wantw:
                return f"{kind} on_ref_error={ref_error}: {nw} warnings"
        conns.append([i, kind, ent, prio])
        return None

    n = 0
    for op in sc["ops"]:
        if op[0] == "c":
            m = connect(op[1], op[2], op[3], op[4])
            if m:
                return m
        elif op[0] == "kill":
            i = op[1]
            refs = []
            for key in (i, ("wl", i)):
                o = owners.pop(key, None)
                if o is not None:
                    refs.append(weakref.ref(o))
                    del o
            if any(r() is not None for r in refs):
                return f"after {op}: owner kept alive by its connections {[c[1] for c in conns if c[0] == i]}"
            if refs:
                conns[:] = [c for c in conns if c[0] != i or c[1] in STRONG]
        elif op[0] == "emit":
            n += 1
            del log[:]
            builtins_before = {k: len(o) for k, o in owners.items() if isinstance(k, tuple)}
            sig.emit(n)
            order = sorted(conns, key=lambda c: -c[3])
            want = [c[2](n) for c in order if c[2]]
            if log != want:
                return f"after {op}: calls {log}, expected {want}"
            for k, b in builtins_before.items():
                nb = sum(1 for c in conns if c[1] == "builtin" and c[0] == k[1])
                if len(owners[k]) - b != nb or list(owners[k])[b:] != [n] * nb:
                    return f"builtin method called {len(owners[k]) - b} times, expected {nb}"
        elif op[0] == "d":
            sig.disconnect()
            conns.clear()
        if len(sig) != len(conns):
            return f"after {op}: {len(sig)} connections, expected {len(conns)} ({[c[:2] for c in conns]})"
    # strongly held owners must be released by disconnect()
    sref = [f for f in owners]
    del sref
    sig.disconnect()
    return None


def exhaustive(tier):
    tails = [[["kill", 0], ["emit"]], [["emit"], ["kill", 1], ["emit"]], [["kill", 0], ["kill", 1], ["emit"]]]
    for a in KINDS:
        for re_ in (None, "raise", "ignore", "warn"):
            for t in tails:
                yield {"ops": [["c", 0, a, re_, 0]] + t}
    for a, b in itertools.product(KINDS, repeat=2):
        for i in (0, 1):
            for p in (0, 1):
                for t in tails:
                    yield {"ops": [["c", 0, a, "ignore", 0], ["c", i, b, "ignore", p]] + t}


def random_scenario(rng):
    ops = []
    for _ in range(rng.randint(2, 14)):
        k = rng.random()
        if k < 0.55:
            ops.append(["c", rng.randint(0, 3), rng.choice(KINDS), rng.choice([None, "raise", "ignore", "warn"]), rng.choice([0, 0, 0, 1, -1])])
        elif k < 0.75:
            ops.append(["kill", rng.randint(0, 3)])
        elif k < 0.97:
            ops.append(["emit"])
        else:
            ops.append(["d"])
    return {"ops": ops}
