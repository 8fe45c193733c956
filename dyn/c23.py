"""C23 scenarios: objects with public/private signals, groups and earlier connections monitored with and without an object, nested, left
normally or by an exception; the reported (signal, args) list, the connections and the debug hook before and after are compared."""
import functools
import itertools
import random
import warnings

from psygnal import EmissionInfo, Signal, SignalGroup, SignalInstance
from psygnal.utils import iter_signal_instances, monitor_events

BOUND = "exhaustive: all monitor configurations x 12 emissions x way of leaving; random: <=8 emissions, nested monitors, connects and blocks inside"


class G(SignalGroup):
    g1 = Signal(int)
    g2 = Signal(str)


class D:
    def __get__(self, o, t=None):
        raise AttributeError("no")


class Obj:
    a = Signal(int)
    b = Signal(int, int)
    _p = Signal(int)
    __dunder__ = 3
    bad = D()
    x = 5

    def __init__(self):
        self.events = G(self)
        self._ev2 = G(self)


class Deco(Obj):
    c = Signal(str)


def emit(o, e):
    n, args = e
    s = {"a": lambda: o.a, "b": lambda: o.b, "_p": lambda: o._p, "g1": lambda: o.events.g1, "g2": lambda: o.events.g2, "h1": lambda: o._ev2.g1}[n]()
    s.emit(*args)
    return s


PUB = {"a", "b", "g1", "g2"}


LOGGERS = ("function", "method", "default", "object", "class method", "varargs", "partial", "builtin", "old function", "old method", "old object", "old partial")


def run_logger(sc):
    """what kind of callable the logger is makes no difference: one taking an EmissionInfo gets it, one requiring two arguments gets name and arguments"""
    log = []

    class L:
        def one(self, info):
            log.append((info.signal.name, info.args))

        def two(self, name, args):
            log.append((name, args))

        @classmethod
        def cm(cls, info):
            log.append((info.signal.name, info.args))

    class One(L):
        __call__ = L.one

    class Two(L):
        __call__ = L.two

    def default(info, more=None):
        L().one(info)

    def varargs(*args):
        L().one(*args)
    infos = []
    fn = {"function": lambda info: L().one(info), "method": L().one, "default": default, "object": One(), "class method": L.cm, "varargs": varargs,
          "partial": functools.partial(L.one, L()), "builtin": infos.append,
          "old function": lambda name, args: L().two(name, args), "old method": L().two, "old object": Two(), "old partial": functools.partial(L.two, L())}[sc["logger"]]
    o = Deco()
    old = sc["logger"].startswith("old")
    hook = SignalInstance._debug_hook
    try:
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            with monitor_events(o if sc["one"] else None, fn):
                if old and not sc["one"]:
                    return f"{sc['logger']}: an old-style logger is accepted"
                o.a.emit(5)
                o.b.emit(1, 2)
    except ValueError:
        if not old or sc["one"]:
            return f"{sc['logger']}: refused"
        return None if SignalInstance._debug_hook is hook else "the hook is left"
    log += [(i.signal.name, i.args) for i in infos]
    if log != [("a", (5,)), ("b", (1, 2))]:
        return f"{sc['logger']}: reported {log}"
    return None


def run(sc):
    if "logger" in sc:
        return run_logger(sc)
    if sc["obj"] == "group":
        return run_group(sc)
    if sc["obj"] == "alias":
        return run_alias(sc)
    o, other = Deco(), Obj()
    pre = []
    for n, k in sc["pre"]:
        for i in range(k):
            s = {"a": o.a, "b": o.b, "_p": o._p, "g1": o.events.g1, "ev": o.events}[n]
            f = lambda *a, n=n, i=i: pre.append((n, i))     # noqa: E731
            s.connect(f)

    def state():
        return [list(x._slots) for x in (o.a, o.b, o._p, o.c, o.events.all, o._ev2.all, other.a)], [[type(c).__name__ for c in o.events[s]._slots] for s in o.events], SignalInstance._debug_hook

    hook0 = SignalInstance._debug_hook
    st0 = state()
    log = []

    class Leave(Exception):
        pass

    class LeaveB(BaseException):
        pass

    def logger(info):
        log.append((info, None))

    def old_logger(name, args):
        log.append((name, args))

    fn = old_logger if sc.get("old") and sc["obj"] == "obj" else logger
    kw = {"include_private_attrs": True} if sc.get("private") else {}
    exp = []
    try:
        with monitor_events(o if sc["obj"] == "obj" else None, fn, **kw):
            for n, args in sc["ops"]:
                if n == "other":
                    s = other.a
                    s.emit(*args)
                    vis = sc["obj"] != "obj"
                elif n == "nest":
                    l2 = []
                    before = SignalInstance._debug_hook
                    with monitor_events(o if args else None, l2.append):
                        s = o.a
                        s.emit(77)
                    if [(i.signal.name, i.args) for i in l2] != [("a", (77,))]:
                        return f"nested monitor reported {l2}"
                    if SignalInstance._debug_hook is not before:
                        return "nested monitor did not restore the hook"
                    vis = sc["obj"] == "obj" or bool(args)
                    args = [77]
                    n = "a"
                    if sc["obj"] == "obj":
                        vis = True
                elif n == "fast":
                    o.a.emit_fast(*args)
                    s, vis = o.a, True
                elif n == "paused":
                    hold = lambda *a: None      # noqa: E731
                    o.b.connect(hold)
                    with o.b.paused():
                        for a in args[:-1]:
                            o.b.emit(a, a)
                    o.b.disconnect(hold)
                    exp += [(o.b, (a, a)) for a in args[:-1]]
                    s, vis = o.b, False
                elif n == "reduced":
                    hold = lambda *a: None      # noqa: E731
                    o.events.g1.connect(hold)
                    with o.events.paused():
                        with o.events.g1.paused(lambda x, y: (x[0] + y[0],)):
                            for a in args:
                                o.events.g1.emit(a)
                    o.events.g1.disconnect(hold)
                    s, vis, args = o.events.g1, True, [sum(args)]
                elif n == "blocked":
                    with o.a.blocked():
                        o.a.emit(3)
                    vis, s = False, None
                    if sc["obj"] != "obj":
                        # the global hook sees emissions before blocking is considered, or not at all: unspecified
                        log[:] = [x for x in log if x[0].args != (3,) or x[0].signal is not o.a]
                else:
                    s = emit(o, (n, args))
                    vis = sc["obj"] != "obj" or n in PUB or bool(sc.get("private"))
                if vis:
                    exp.append((s, tuple(args)))
            if sc["leave"] == "exc":
                raise Leave
            if sc["leave"] == "base":
                raise LeaveB
    except (Leave, LeaveB):
        pass
    got = []
    for info, args in log:
        if fn is old_logger:
            got.append((info, args))
            continue
        if not isinstance(info, EmissionInfo):
            return f"reported {info!r}"
        sig, a = info.signal, info.args
        if len(a) == 1 and isinstance(a[0], EmissionInfo):       # through the group
            sig, a = a[0].signal, a[0].args
        got.append((sig, tuple(a)))
    if fn is old_logger:
        got = [(n, tuple(a[0].args) if len(a) == 1 and isinstance(a[0], EmissionInfo) else tuple(a)) for n, a in got]
        if [a for n, a in got] != [a for s, a in exp]:
            return f"reported {got}, expected {[(s.name, a) for s, a in exp]}"
    else:
        if sc["obj"] != "obj":
            # all signals: group relays may forward too
            got = [x for x in got if x[0].name not in ("", None) or x in exp]
        if len(got) != len(exp) or any(g[0] is not e[0] or g[1] != e[1] for g, e in zip(got, exp)):
            return f"reported {[(s.name, a) for s, a in got]}, expected {[(s.name, a) for s, a in exp]}"
    if state() != st0 or any(x is not y for a, b in zip(state()[0], st0[0]) for x, y in zip(a, b)):
        return f"connections or hook differ after leaving: {state()} was {st0}"
    if SignalInstance._debug_hook is not hook0:
        return "debug hook left installed"
    n = len(log)
    emit(o, ("a", [1]))
    emit(o, ("g1", [1]))
    if len(log) != n:
        return "still reporting after the context"
    want = {id(o.a), id(o.b), id(o.c), id(o.events.all)} | ({id(o._p), id(o._ev2.all)} if sc.get("private") else set())
    it = [id(s) for s in iter_signal_instances(o, bool(sc.get("private")))]
    if sorted(it) != sorted(want):
        return f"iter_signal_instances gave {len(it)} signals, expected {len(want)}"
    return None


def run_group(sc):
    g = G()
    seen, log = [], []
    for n, k in sc["pre"]:
        if n == "g1":
            for _ in range(k):
                g.g1.connect(lambda x: seen.append(x))
    st0 = [list(g[s]._slots) for s in g]
    try:
        with monitor_events(g, log.append):
            for v in range(3):
                g.g1.emit(v)
                g.g2.emit(str(v))
            if sc["leave"] != "ok":
                raise LookupError
    except LookupError:
        pass
    got = [(i.signal, i.args) for i in log]
    exp = [x for v in range(3) for x in ((g.g1, (v,)), (g.g2, (str(v),)))]
    if len(got) != len(exp) or any(a[0] is not b[0] or a[1] != b[1] for a, b in zip(got, exp)):
        return f"group monitor reported {got}"
    if [list(g[s]._slots) for s in g] != st0:
        return "connections differ after leaving"
    return None


class Alias:
    a = Signal(int)
    b = Signal(int)

    def __init__(self, bad):
        self.bad = bad
        self.changed = self.a           # the same signal under two names
        self.events = G(self)
        self.grp = self.events
        self.other = self.events.g1     # a public signal of its own as well as a member of the group

    @property
    def zz(self):
        if self.bad:
            raise RuntimeError("scan")
        return None


def run_alias(sc):
    o = Alias(sc["private"])
    st0 = [list(s._slots) for s in (o.a, o.b, o.events.g1, o.events.g2, o.events.all)]
    log = []
    try:
        with monitor_events(o, log.append):
            o.a.emit(1)
            o.b.emit(2)
            o.events.g2.emit("s")
        if sc["private"]:
            return "the error raised while reading the attributes was lost"
    except RuntimeError:
        if not sc["private"]:
            raise
    if [list(s._slots) for s in (o.a, o.b, o.events.g1, o.events.g2, o.events.all)] != st0:
        return "connections left behind"
    if sc["private"]:
        return None
    got = [(i.args[0].signal, i.args[0].args) if isinstance(i.args[0], EmissionInfo) else (i.signal, i.args) for i in log]
    exp = [(o.a, (1,)), (o.b, (2,)), (o.events.g2, ("s",))]
    if len(got) != 3 or any(g[0] is not e[0] or g[1] != e[1] for g, e in zip(got, exp)):
        return f"reported {[(s.name, a) for s, a in got]}, expected each emission once"
    return None


EMS = [["a", [1]], ["b", [1, 2]], ["_p", [4]], ["g1", [5]], ["g2", ["s"]], ["h1", [6]], ["other", [1]], ["fast", [4]], ["paused", [21, 22, 0]], ["reduced", [3, 4]], ["nest", True], ["nest", False], ["blocked", []]]


def exhaustive(tier):
    for lg, one in itertools.product(LOGGERS, (True, False)):
        yield {"logger": lg, "one": one}
    for priv in (False, True):
        yield {"obj": "alias", "private": priv}
    for obj, priv, leave, old in itertools.product(("obj", "all", "group"), (False, True), ("ok", "exc", "base"), (False, True)):
        for pre in ([], [["a", 1], ["g1", 2]], [["a", 2], ["ev", 1], ["_p", 1]]):
            for e in EMS:
                if e[0] == "nest" and old:
                    continue
                yield {"obj": obj, "private": priv, "leave": leave, "old": old, "pre": pre, "ops": [e, ["a", [9]], e]}


def random_scenario(rng: random.Random):
    old = rng.random() < 0.2
    return {"obj": rng.choice(["obj", "obj", "all", "group"]), "private": rng.random() < 0.4, "leave": rng.choice(["ok", "exc", "base"]), "old": old,
            "pre": [[rng.choice(["a", "b", "_p", "g1", "ev"]), rng.randint(1, 2)] for _ in range(rng.randrange(4))],
            "ops": [rng.choice([e for e in EMS if not (old and e[0] == "nest")]) for _ in range(rng.randint(1, 8))]}


KNOWN = {}
