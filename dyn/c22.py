"""C22 scenarios: attribute/item/in-place/call operations on an EventedObjectProxy of many targets and on a second, unwrapped target; results,
errors, target contents and emitted events are compared after every operation."""
import gc
import itertools
import operator
import random

import numpy as np

from psygnal.containers import EventedObjectProxy
from psygnal.containers._evented_proxy import EventedCallableObjectProxy

BOUND = "exhaustive: 9 targets x every single operation and all pairs of 14 operations; random: <=10 operations"


class Obj:
    def __init__(self):
        self.a = 1
        self.l = [1]

    @property
    def ro(self):
        return 5

    @property
    def norm(self):
        return self._n if hasattr(self, "_n") else 0

    @norm.setter
    def norm(self, v):
        if v == 99:
            raise LookupError("99")
        self._n = round(v)

    def __eq__(self, o):
        return isinstance(o, Obj) and vars(self) == vars(o)

    __hash__ = None


class Slot:
    __slots__ = ("a",)

    def __init__(self):
        self.a = 1


class Bad(dict):
    def __getitem__(self, k):
        if k == "boom":
            raise RuntimeError("get")
        return super().__getitem__(k)

    def __setitem__(self, k, v):
        if v == 99:
            raise LookupError("99")
        super().__setitem__(k, v)


class Num:
    """in-place arithmetic recorded on the object itself; __iadd__ may raise"""
    def __init__(self):
        self.log = []


def _ip(name):
    def f(self, o):
        if o == 99:
            raise LookupError(name)
        self.log.append((name, o))
        return self
    return f


OPN = ["add", "sub", "mul", "matmul", "truediv", "floordiv", "mod", "pow", "lshift", "rshift", "and", "xor", "or"]
for n_ in OPN:
    setattr(Num, f"__i{n_}__", _ip(n_))


def target(k):
    if k == "obj":
        return Obj()
    if k == "slot":
        return Slot()
    if k == "list":
        return [1, 2, 3]
    if k == "dict":
        return {"a": 1, "b": [2]}
    if k == "arr":
        return np.array([1.0, 2.0])
    if k == "bad":
        return Bad(a=1)
    if k == "num":
        return Num()
    if k == "int":
        return 6
    if k == "set":
        return {1, 2}
    if k == "fn":
        def fn(*a, **kw):
            if a and a[0] == 99:
                raise LookupError("99")
            return (a, kw)
        return fn


BIG = [object(), object()]
VALS = {"o0": BIG[0], "o1": BIG[1], "L": [7], "nan": float("nan")}


def val(v):
    return VALS.get(v, v) if isinstance(v, str) else v


def key(k):
    if isinstance(k, list):
        return slice(*k)
    return k


def attempt(f):
    try:
        return None, f()
    except Exception as e:
        return e, None


def content(t):
    if isinstance(t, (Obj, Num)):
        return vars(t)
    if isinstance(t, Slot):
        return getattr(t, "a", "deleted")
    if isinstance(t, np.ndarray):
        return t.tolist()
    if callable(t):
        return vars(t)
    return t


def run(sc):
    t1, t2 = target(sc["t"]), target(sc["t"])
    P = EventedCallableObjectProxy if sc["t"] == "fn" else EventedObjectProxy
    p = P(t1)
    log = []
    ev = p.events
    if p.events is not ev:
        return "events is not the same object each time"
    if P(t1).events is ev:
        return "two proxies share their events"
    for n in ev:
        ev[n].connect(lambda *a, n=n: log.append((n, *a)))
    if p.__wrapped__ is not t1:
        return "target not wrapped"
    for op in sc["ops"]:
        del log[:]
        k = op[0]
        exp = []
        MISSING = BIG
        if k == "set":
            n, v = op[1], val(op[2])
            b = getattr(t2, n, MISSING)
            e2, _ = attempt(lambda: setattr(t2, n, v))
            b1 = getattr(t1, n, MISSING)
            e1, _ = attempt(lambda: setattr(p, n, v))
            if e2 is None:
                after = getattr(t1, n, MISSING)
                if after is not b1:
                    exp = [("attribute_set", n, after)]
        elif k == "del":
            n = op[1]
            e2, _ = attempt(lambda: delattr(t2, n))
            e1, _ = attempt(lambda: delattr(p, n))
            exp = [("attribute_deleted", n)] if e2 is None else []
        elif k == "get":
            e2, r2 = attempt(lambda: getattr(t2, op[1]))
            e1, r1 = attempt(lambda: getattr(p, op[1]))
            if e2 is None and e1 is None and r1 != r2 and not callable(r1):
                return f"{op}: {r1!r}, target gives {r2!r}"
        elif k == "sset":
            q, v = key(op[1]), val(op[2])
            if isinstance(v, list) and not isinstance(q, slice):
                v = v
            e0, b1 = attempt(lambda: t1[q])
            b1 = MISSING if e0 else b1
            if e0 is not None and not isinstance(e0, LookupError):
                # reading the old item fails for another reason: the proxy needs it
                return None
            e2, _ = attempt(lambda: operator.setitem(t2, q, v))
            e1, _ = attempt(lambda: operator.setitem(p, q, v))
            if e2 is None and (not isinstance(q, slice) or sc["t"] in ("dict", "bad")) and sc["t"] != "arr":
                after = t1[q]
                if after is not b1:
                    exp = [("item_set", q, after)]
            elif e2 is None:
                if len(log) != 1 or log[0][0] != "item_set" or log[0][1] != q:
                    return f"{op}: emitted {log}"
                log.clear()
        elif k == "sdel":
            q = key(op[1])
            e2, _ = attempt(lambda: operator.delitem(t2, q))
            e1, _ = attempt(lambda: operator.delitem(p, q))
            exp = [("item_deleted", q)] if e2 is None else []
        elif k == "sget":
            q = key(op[1])
            e2, r2 = attempt(lambda: t2[q])
            e1, r1 = attempt(lambda: p[q])
            if e2 is None and e1 is None and not np.array_equal(r1, r2):
                return f"{op}: {r1!r}, target gives {r2!r}"
        elif k == "ip":
            f = getattr(operator, {"and": "iand", "or": "ior"}.get(op[1], "i" + op[1]))
            v = val(op[2])
            pp = P(t1)
            lg = []
            pp.events.in_place.connect(lambda *a: lg.append(a))
            for m in pp.events:
                if m != "in_place":
                    pp.events[m].connect(lambda *a: lg.append("other"))
            e2, r2 = attempt(lambda: f(t2, v))
            e1, r1 = attempt(lambda: f(pp, v))
            if lg != [(op[1], v)] and not (e2 is not None and lg == []):
                return f"{op}: emitted {lg}"
            if e1 is None and e2 is None:
                if not np.array_equal(content(getattr(r1, "__wrapped__", r1)), content(r2)) and repr(content(getattr(r1, "__wrapped__", r1))) != repr(content(r2)):
                    return f"{op}: result {r1!r}, on the target {r2!r}"
                if (r2 is t2) != (getattr(r1, "__wrapped__", r1) is t1) and sc["t"] != "int":
                    return f"{op}: in place on the target, but not through the proxy"
        elif k == "call":
            a, kw = [val(x) for x in op[1]], op[2]
            e2, r2 = attempt(lambda: t2(*a, **kw))
            e1, r1 = attempt(lambda: p(*a, **kw))
            if r1 != r2:
                return f"{op}: {r1!r}, target gives {r2!r}"
            if sc["t"] == "fn":
                exp = [("called", tuple(a), kw)]
        elif k == "misc":
            for f in (repr, str, len, bool, hash, list, lambda x: x == 6, lambda x: x + 1, lambda x: 1 in x):
                x1, r1 = attempt(lambda: f(p))
                x2, r2 = attempt(lambda: f(t1))
                if type(x1) is not type(x2) or (x1 is None and not np.array_equal(r1, r2) and r1 != r2):
                    return f"{f} gives {x1 or r1!r}, target {x2 or r2!r}"
            e1 = e2 = None
            if "events" not in dir(p) or not set(dir(t1)) <= set(dir(p)):
                return "dir"
            if not isinstance(p, type(t1)):
                return "isinstance"
        if type(e1) is not type(e2):
            return f"{op}: {e1!r}, on the target {e2!r}"
        if content(t1) != content(t2) and repr(content(t1)) != repr(content(t2)):
            return f"{op}: target holds {content(t1)!r}, directly {content(t2)!r}"
        if len(log) != len(exp) or any(len(x) != len(y) or any(not (a is b or (type(a) is type(b) and a == b)) for a, b in zip(x, y)) for x, y in zip(log, exp)):
            return f"{op}: emitted {log}, expected {exp}"
        if p.events is not ev:
            return "events replaced"
    pid = id(p)
    del p
    return None


TARGETS = ["obj", "slot", "list", "dict", "arr", "bad", "num", "int", "set", "fn"]
OPS = ([["set", n, v] for n in ("a", "b", "ro", "norm") for v in (1, 2, "o0", 99)] + [["set", "a", "L"], ["set", "norm", 1.2], ["del", "a"], ["del", "b"], ["del", "ro"], ["get", "a"], ["get", "zz"]]
       + [["sset", q, v] for q in ("a", "b", "c", 0, -1, 7, [0, 2]) for v in (1, "o0", 99, "L")] + [["sdel", q] for q in ("a", "zz", 0, 9, [0, 1])] + [["sget", q] for q in ("a", "zz", 0, 9, [0, 1])]
       + [["ip", n, v] for n in OPN for v in (2, 99, "L")] + [["call", [], {}], ["call", [1, "o0"], {"k": 2}], ["call", [99], {}], ["misc"]])


def exhaustive(tier):
    for t in TARGETS:
        for op in OPS:
            yield {"t": t, "ops": [op, op]}
    pick = [["set", "a", 1], ["set", "a", "o0"], ["set", "b", 2], ["del", "a"], ["del", "b"], ["sset", "a", 1], ["sset", "c", "o1"], ["sset", 0, "o0"], ["sdel", "a"], ["sdel", 0],
            ["ip", "add", 2], ["ip", "mul", 2], ["call", [1], {}], ["set", "norm", 1.2]]
    for t in TARGETS:
        for a, b in itertools.product(pick, pick):
            yield {"t": t, "ops": [a, b]}


def random_scenario(rng: random.Random):
    return {"t": rng.choice(TARGETS), "ops": [rng.choice(OPS) for _ in range(rng.randint(1, 10))]}


KNOWN = {}
