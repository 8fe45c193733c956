"""C18 scenarios: evented classes (dataclass, slotted dataclass, attrs, msgspec, pydantic; decorator or descriptor) next to an undecorated twin;
stored values, emitted (new, old) pairs per signal, group identity and errors are compared after every operation."""
import copy
import itertools
import gc
import operator
import random
from dataclasses import dataclass, field
from types import MappingProxyType
from typing import Any, ClassVar

import attr
import msgspec
import numpy as np
import pydantic

from psygnal import SignalGroupDescriptor, evented, SignalGroup, Signal

BOUND = "exhaustive: every flavour x alias mapping x equality choice with every single assignment and all pairs of 12 values; random: <=14 operations, <=3 instances"


class RaisesEq:
    def __eq__(self, o):
        raise ZeroDivisionError

    __hash__ = object.__hash__


class BoolRaises:
    class R:
        def __bool__(self):
            raise ValueError("ambiguous")

    def __eq__(self, o):
        return self.R()

    __hash__ = object.__hash__


ARR = [np.array([1, 2]), np.array([1, 2]), np.array([3]), np.array([[1]])]
OBJ = {"re1": RaisesEq(), "re2": RaisesEq(), "br1": BoolRaises(), "br2": BoolRaises(), "A0": ARR[0], "A1": ARR[1], "A2": ARR[2], "L": [1], "L2": [1],
       "N": float("nan"), "T": True, "F": 1.0, "none": None}


def val(v):
    return OBJ.get(v, v) if isinstance(v, str) else v


def eq_never(a, b):
    return False


def eq_always(a, b):
    return True


def eq_parity(a, b):
    return a % 2 == b % 2


def eq_order(a, b):  # asymmetric: the new value is the first argument
    return a >= b


EQS = [{}, {"a": eq_never}, {"a": eq_always, "b": eq_never}, {"a": eq_parity, "d": operator.is_}, {"a": eq_order, "b": eq_order}]
ALIASES = [None, {"a": "alpha"}, {"a": "alpha", "b": None}, "under", {"a": "d_changed", "d": "b_changed", "b": "a_changed"}]
FLAVORS = ["dc", "dcslots", "dcweak", "attrs", "attrslots", "msgspec", "pyd", "sub", "custom", "twin2"]


def alias_fn(n):
    return None if n.startswith("_") or n == "d" else "on_" + n


def build(flavor):
    if flavor in ("dc", "twin2"):
        @dataclass
        class K:
            a: int = 0
            b: Any = None
            d: float = 0.0
    elif flavor in ("dcslots", "dcweak"):
        kw = {"weakref_slot": True} if flavor == "dcweak" else {}

        @dataclass(slots=True, **kw)
        class K:
            a: int = 0
            b: Any = None
            d: float = 0.0
    elif flavor == "attrs":
        @attr.s(auto_attribs=True, eq=False)
        class K:
            a: int = 0
            b: Any = None
            d: float = 0.0
    elif flavor == "attrslots":
        @attr.define(eq=False)
        class K:
            a: int = 0
            b: Any = None
            d: float = 0.0
    elif flavor == "msgspec":
        class K(msgspec.Struct, weakref=True, dict=True, eq=False):
            a: int = 0
            b: Any = None
            d: float = 0.0
    elif flavor == "pyd":
        class K(pydantic.BaseModel):
            model_config = {"validate_assignment": True, "arbitrary_types_allowed": True, "ignored_types": (SignalGroupDescriptor,)}
            a: int = 0
            b: Any = None
            d: float = 0.0
    elif flavor == "sub":
        @dataclass
        class K0:
            a: int = 0
            b: Any = None

        @dataclass
        class K(K0):
            d: float = 0.0
    elif flavor == "custom":
        @dataclass
        class K:
            a: int = 0
            b: Any = None
            d: float = 0.0

            def __setattr__(self, n, v):
                if isinstance(v, str) and v == "bad":
                    raise LookupError(n)
                if n == "d":
                    v = round(v, 1)
                object.__setattr__(self, n, v)
    return K


def run_gcls(sc):
    """classes using one custom group class, each with aliases of its own"""
    class G(SignalGroup):
        x = Signal(int, int)
        y = Signal(int, int)
        a = Signal(int, int)
    before = dict(G._psygnal_aliases)
    ks = []
    for al in sc["aliases"]:
        @dataclass
        class K:
            a: int = 0
            b: int = 0
        d = SignalGroupDescriptor(signal_group_class=G, collect_fields=False, **({} if al is None else {"signal_aliases": al}))
        d.__set_name__(K, "events")
        K.events = d
        ks.append(K)
    os_, logs = [K() for K in ks], [[] for _ in ks]
    for i in sc["first"]:
        for n in os_[i].events:
            os_[i].events[n].connect(lambda *v, i=i, n=n: logs[i].append((n, v)))
    for i, o in enumerate(os_):
        for f, v in (("a", 5), ("b", 6), ("a", 5)):
            for lg in logs:
                del lg[:]
            old = getattr(o, f)
            setattr(o, f, v)
            sn = (sc["aliases"][i] or {}).get(f, f)
            exp = [(sn, (v, old))] if sn in ("x", "y", "a") and v != old else []
            if logs[i] != exp or any(lg for j, lg in enumerate(logs) if j != i):
                return f"class {i}, aliases {sc['aliases'][i]}: {f}={v} emitted {logs}, expected {exp}"
    if G._psygnal_aliases != before:
        return f"the group class given was changed: aliases {G._psygnal_aliases}"
    return None


def run_hier(sc):
    """a chain of classes, each possibly evented again (namespace, aliases) and possibly with a __setattr__ of its own that calls super();
    instances are accessed in any order, then fields set"""
    ks, spaces = [], []
    base = object
    for i, (deco, own) in enumerate(sc["classes"]):
        ns = {"__annotations__": {f"f{i}": int}, f"f{i}": 0}
        if own:
            def sa(self, n, v, i=i, cell=[]):
                super(ks[i], self).__setattr__(n, v)
            ns["__setattr__"] = sa
        k = dataclass(type(f"K{i}", (base,), ns))
        sp = dict(spaces[-1]) if spaces else {}
        if deco is not None:
            name, al = deco
            sp[name] = al or {}
            k = evented(k, events_namespace=name, **({"signal_aliases": al} if al else {}))
        ks.append(k)
        spaces.append(sp)
        base = k
    os_ = [k() for k in ks]
    logs = {}
    for i in sc["first"]:
        for name in spaces[i]:
            g = getattr(os_[i], name)
            for n in g:
                def cb(*v, i=i, name=name, n=n):
                    logs.setdefault((i, name), []).append((n, v))
                    if n in sc.get("reenter", ()) and v[0] < 8:  # a listener that sets the field again
                        setattr(os_[i], n, v[0] + 1)
                g[n].connect(cb)
    for i, f, v in sc["ops"]:
        if f > i:
            continue
        logs.clear()
        old = getattr(os_[i], f"f{f}")
        setattr(os_[i], f"f{f}", v)
        exp = {}
        for name, al in spaces[i].items():
            sn = al.get(f"f{f}", f"f{f}")
            if v != old and sn is not None and i in sc["first"]:
                last, L = v, [(sn, (v, old))]
                exp[(i, name)] = L
        if sc.get("reenter") and exp and any(al.get(f"f{f}", f"f{f}") in sc["reenter"] for al in spaces[i].values()):
            seen = {k: sorted(x) for k, x in logs.items()}
            for k in exp:
                al = spaces[i][k[1]]
                if al.get(f"f{f}", f"f{f}") not in sc["reenter"]:
                    continue
                w = [(sc_n, (b, a)) for sc_n in [al.get(f"f{f}", f"f{f}")] for a, b in zip([old] + list(range(v, 8)), range(v, 9))]
                if len(spaces[i]) == 1 and seen.get(k) != sorted(w):
                    return f"object {i}: f{f}={v} (was {old}) with a listener that sets the field again emitted {seen}, expected {k}: {w}"
            continue
        if logs != exp:
            return f"object of class {i} in {sc['classes']}: f{f}={v} (was {old}) emitted {logs}, expected {exp}"
    return None


def run_named(sc):
    """classes of one name that inherit one descriptor, made, used and dropped in any order: each emits for the fields it has itself"""
    import gc

    class G(SignalGroup):
        f0 = Signal(int, int)
        f1 = Signal(int, int)
        f2 = Signal(int, int)
    kw = {"signal_group_class": G, "collect_fields": False} if sc["given"] else {}

    class Base:
        events = SignalGroupDescriptor(**kw)

    def mk(fields):
        return dataclass(type("K", (Base,), {"__annotations__": {f: int for f in fields}, "__qualname__": "K", **{f: 0 for f in fields}}))
    live = {}
    for step, (op, i, fields) in enumerate(sc["named"]):
        if op == "drop":
            live.pop(i, None)
            gc.collect()
            continue
        if i not in live:
            live[i] = (mk(fields), fields)
        k, fields = live[i]
        o = k()
        log = []
        ev = o.events
        for f in fields:
            if f not in ev:
                return f"step {step}: class {i} has the field {f}, but its group has no such signal: {list(ev)}"
            ev[f].connect(lambda *v, f=f: log.append((f, v)))
        if not sc["given"] and sorted(ev) != sorted(fields):
            return f"step {step}: class {i} with fields {fields} has a group with signals {list(ev)}"
        if op == "use":
            for f in fields:
                setattr(o, f, step + 1)
            if log != [(f, (step + 1, 0)) for f in fields]:
                return f"step {step}: setting {fields} of class {i} to {step + 1} emitted {log}"
        del k, o, ev, log
    return None


OPS = {"never": eq_never, "always": eq_always, "parity": eq_parity}


def run_own_ops(sc):
    """operators of the class (__eq_operators__), some overridden by the descriptor; also for a subclass and with a second descriptor"""
    own = {f: OPS[o] for f, o in sc["own_ops"].items()}
    giv = {f: OPS[o] for f, o in sc["given"].items()}

    @dataclass
    class K:
        __eq_operators__: ClassVar = own
        a: int = 0
        b: int = 0
        ev: ClassVar = SignalGroupDescriptor(equality_operators=giv or None)
    if sc["second"]:
        K.ev2 = SignalGroupDescriptor()
        K.ev2.__set_name__(K, "ev2")

    @dataclass
    class S(K):
        c: int = 0
    if sc.get("subops"):
        S.ev = SignalGroupDescriptor(equality_operators={f: OPS[x] for f, x in sc["subops"].items()})
        S.ev.__set_name__(S, "ev")
        K().ev      # (the operators of a subclass do not become those of its base)
        S().ev
    o = (S if sc["sub"] else K)()
    log = []
    if sc["second"] == 2:
        o.ev2
    for f in sorted(o.ev):
        o.ev[f].connect(lambda *v, f=f: log.append((f, v)))
    if sc["second"]:
        o.ev2
    for f, v in sc["set"]:
        if f == "c" and not sc["sub"]:
            continue
        old = getattr(o, f)
        del log[:]
        setattr(o, f, v)
        over = {k: OPS[x] for k, x in (sc.get("subops") or {}).items()} if sc["sub"] else {}
        same = {**{k: OPS[x] for k, x in sc["own_ops"].items()}, **giv, **over}.get(f, operator.eq)(v, old)
        if getattr(o, f) != v or log != ([] if same else [(f, (v, old))]):
            return f"class operators {sc['own_ops']}, given {sc['given']}: {f} {old} -> {v} emitted {log}"
    return None


def run_given_group(sc):
    """a group class written out, its fields not collected: operators and aliases given to the descriptor hold for it too"""
    giv = {f: OPS[o] for f, o in sc["given"].items()}
    al = {"b": "bb"} if sc["how"] else None

    class G(SignalGroup):
        a = Signal(int, int)
        b = Signal(int, int)
        bb = Signal(int, int)

    @dataclass
    class K:
        a: int = 0
        b: int = 0
        ev: ClassVar = SignalGroupDescriptor(signal_group_class=G, collect_fields=False, equality_operators=giv or None,
                                             signal_aliases=MappingProxyType(al) if sc["how"] == 2 else al)
    o = K()
    log = []
    for f in sorted(o.ev):
        o.ev[f].connect(lambda *v, f=f: log.append((f, v)))
    for f, v in sc["set"]:
        old = getattr(o, f)
        del log[:]
        setattr(o, f, v)
        sig = "bb" if f == "b" and al else f
        if getattr(o, f) != v or log != ([] if giv.get(f, operator.eq)(v, old) else [(sig, (v, old))]):
            return f"group class given, operators {sc['given']}, aliases {(None, 'in a dict', 'in a Mapping')[sc['how']]}: {f} {old} -> {v} emitted {log}"
    return None


def run(sc):
    if "how" in sc:
        return run_given_group(sc)
    if "own_ops" in sc:
        return run_own_ops(sc)
    if "named" in sc:
        return run_named(sc)
    if "classes" in sc:
        return run_hier(sc)
    if "aliases" in sc:
        return run_gcls(sc)
    fl = sc["flavor"]
    al = ALIASES[sc["alias"]]
    eqs = EQS[sc["eq"]]
    kw = {}
    if eqs:
        kw["equality_operators"] = dict(eqs)
    if al is not None:
        kw["signal_aliases"] = alias_fn if al == "under" else dict(al)
    if not sc.get("cache", True):
        kw["cache_on_instance"] = False
    T, K = build(fl), build(fl)
    if sc.get("desc") or fl == "pyd" and sc.get("desc"):
        d = SignalGroupDescriptor(**kw)
        d.__set_name__(K, "events")
        type.__setattr__(K, "events", d) if fl != "pyd" else setattr(K, "events", d)
    else:
        K = evented(K, **kw)
    amap = {}
    for f in ("a", "b", "d"):
        amap[f] = alias_fn(f) if al == "under" else (al or {}).get(f, f)
    ops_ = {f: eqs.get(f, operator.eq) for f in amap}
    broken = set()
    insts, twins, groups, conns = [], [], [], []
    logs = []
    second = None

    def mk():
        insts.append(K())
        twins.append(T())
        groups.append(None)
        conns.append({})
        logs.append([])

    mk()

    def grp(i):
        g = insts[i].events
        if not isinstance(g, SignalGroup):
            return f"events of instance {i} is {g!r}"
        if groups[i] is not None and groups[i] is not g:
            return f"instance {i} has two groups"
        if any(groups[j] is g for j in range(len(groups)) if j != i):
            return f"instance {i} shares its group with another one"
        groups[i] = g
        if g.all.instance is not insts[i]:
            return f"group of instance {i} bound to {g.all.instance!r}"
        want = {amap[f] for f in amap if amap[f]}
        if set(g) != want:
            return f"signals {sorted(g)}, expected {sorted(want)}"
        return None

    for op in sc["ops"]:
        k, i = op[0], op[1] % len(insts)
        if k == "new":
            if len(insts) < 3:
                mk()
            continue
        if k == "grp":
            m = grp(i)
            if m:
                return m
            continue
        if k in ("conn", "disc", "gconn"):
            m = grp(i)
            if m:
                return m
            if k == "gconn":
                insts[i].events.all.connect(lambda info, i=i: logs[i].append(("*" + info.signal.name, info.args)))
                conns[i]["*"] = conns[i].get("*", 0) + 1
                continue
            sn = amap[op[2]]
            if sn is None:
                continue
            sig = insts[i].events[sn]
            if k == "conn":
                sig.connect(lambda new, old, i=i, sn=sn: logs[i].append((sn, (new, old))))
                conns[i][sn] = conns[i].get(sn, 0) + 1
            else:
                sig.disconnect()
                if "*" in conns[i]:
                    # removes the group's own forwarding connection as well: out of scope from here
                    return None
                conns[i].pop(sn, None)
            continue
        if k == "copy":
            c = copy.copy(insts[i])
            if insts[i].events is c.events:
                return "a copy shares the group of the original"
            continue
        # assignments
        f, v = op[2], val(op[3])
        if k == "other":
            f = "zz"
        del logs[i][:]
        others = [len(x) for x in logs]
        old = getattr(twins[i], f, "missing") if k == "set" else None
        e1 = e2 = None
        try:
            setattr(twins[i], f, v)
        except Exception as e:
            e1 = e
        try:
            setattr(insts[i], f, v)
        except Exception as e:
            e2 = e
        if type(e1) is not type(e2):
            return f"assigning {f}={v!r}: {e2!r}, undecorated {e1!r}"
        if k == "other":
            if logs[i]:
                return f"assigning another attribute emitted {logs[i]}"
            continue
        new = getattr(twins[i], f, "missing")
        got = getattr(insts[i], f, "missing")
        if got is not new and not (type(got) is type(new) and got == new and isinstance(got, (int, float))):
            return f"{f}={v!r}: stores {got!r}, undecorated {new!r}"
        for j, n in enumerate(others):
            if len(logs[j]) != n and j != i:
                return "another instance emitted"
        sn = amap[f]
        exp = []
        if e1 is None and sn is not None and groups[i] is not None and (conns[i].get(sn) or conns[i].get("*")):
            try:
                same = bool(ops_[f](new, old))
                if f in broken and same != (new is old):
                    return None     # how a field compares after its operator failed is not specified
            except Exception:
                broken.add(f)
                if isinstance(new, np.ndarray):
                    same = np.array_equal(new, old)
                else:
                    same = new is old
            if not same:
                exp = [(sn, (new, old))] * conns[i].get(sn, 0) + [("*" + sn, (new, old))] * conns[i].get("*", 0)
        key = lambda r: (r[0], id(r[1][0]) if isinstance(r[1][0], (np.ndarray, list, RaisesEq, BoolRaises)) else repr(r[1][0]), repr(r[1][1]))  # noqa: E731
        if sorted(map(key, logs[i])) != sorted(map(key, exp)):
            return f"{f}: {old!r} -> {new!r} emitted {logs[i]}, expected {exp}"
    return None


VALS = [0, 1, 2, 3, "T", "F", "N", "L", "L2", "A0", "A1", "A2", "re1", "re2", "br1", "br2", "none", "bad"]


def exhaustive(tier):
    for given in (True, False):
        for o1, o2 in itertools.product(("see", "use"), repeat=2):
            yield {"given": given, "named": [[o1, 0, ["f0"]], [o2, 1, ["f1", "f2"]], ["use", 0, []], ["use", 1, []]]}
            yield {"given": given, "named": [[o1, 0, ["f0"]], ["drop", 0, []], [o2, 0, ["f1"]], ["drop", 0, []], ["use", 0, ["f2"]]] * 4}
    for oo, gi, second, sub in itertools.product(({}, {"a": "parity"}, {"a": "always", "b": "never"}), ({}, {"b": "always"}), (0, 1, 2), (False, True)):
        if not (second or sub):
            for how in (0, 1, 2):
                yield {"how": how, "given": gi or oo, "set": [["a", 2], ["b", 2], ["a", 2], ["a", 3], ["b", 2], ["b", 4]]}
        if not second:
            yield {"own_ops": oo, "given": gi, "second": 0, "sub": sub, "subops": {"a": "never", "b": "always"}, "set": [["a", 2], ["b", 2], ["c", 1], ["a", 2], ["a", 3], ["b", 2], ["b", 4]]}
        yield {"own_ops": oo, "given": gi, "second": second, "sub": sub, "set": [["a", 2], ["b", 2], ["c", 1], ["a", 2], ["a", 3], ["b", 2], ["c", 1], ["b", 4]]}
    AL = [None, {"a": "x"}, {"a": "y", "b": "x"}, {"a": None}, {"b": "a"}]
    for a, b in itertools.product(AL, AL):
        for first in ([0, 1], [1, 0]):
            yield {"aliases": [a, b], "first": first}
    decos = [None, ("events", None), ("events", {"f0": "x", "f1": "y"}), ("ev", None), ("ev", {"f0": "z", "f1": None})]
    ops = [[i, f, v] for v in (1, 1, 4) for i in (1, 0) for f in (0, 1)]
    for d0, d1, o0, o1 in itertools.product(decos[1:4], decos, (False, True), (False, True)):
        for first in ([0, 1], [1, 0], [1]):
            yield {"classes": [[d0, o0], [d1, o1]], "first": first, "ops": ops}
    for own in (False, True):
        yield {"classes": [[decos[1], False], [None, own]], "first": [0, 1], "ops": ops, "reenter": ["f0", "f1"]}
    for fl, ai, ei in itertools.product(FLAVORS, range(len(ALIASES)), range(len(EQS))):
        if fl == "twin2":
            continue
        yield {"flavor": fl, "alias": ai, "eq": ei, "cache": (ai + ei) % 2 == 0, "desc": fl in ("dc", "attrs") and ei % 2 == 1,
               "ops": [["grp", 0], ["conn", 0, "a"], ["conn", 0, "b"], ["conn", 0, "d"], ["set", 0, "a", 1], ["set", 0, "a", 1], ["set", 0, "a", 3], ["set", 0, "b", 5],
                       ["set", 0, "b", 5], ["set", 0, "d", 2], ["other", 0, "zz", 1], ["set", 0, "a", 2], ["new", 0], ["conn", 1, "a"], ["set", 0, "a", 9], ["set", 1, "a", 9], ["grp", 0]]}
    for fl in ("dc", "attrslots", "pyd"):
        for u, v in itertools.product(VALS, VALS):
            yield {"flavor": fl, "alias": 0, "eq": 0, "ops": [["set", 0, "b", u], ["conn", 0, "b"], ["set", 0, "b", v], ["set", 0, "b", u]]}


def random_scenario(rng: random.Random):
    ops = []
    if rng.random() < 0.05:
        return {"given": rng.random() < 0.5, "named": [[rng.choice(["see", "use", "use", "drop"]), rng.randrange(3), rng.sample(["f0", "f1", "f2"], rng.randint(1, 3))] for _ in range(rng.randint(3, 9))]}
    if rng.random() < 0.25:
        n = rng.randint(2, 4)
        cl = []
        for i in range(n):
            d = rng.choice([None, "events", "events", "ev", "ev2"]) if i else "events"
            cl.append([d and (d, rng.choice([None, {f"f{j}": rng.choice(["x" + str(j), None, f"f{j}"]) for j in range(n) if rng.random() < 0.5}])), rng.random() < 0.4])
        first = [i for i in range(n) if rng.random() < 0.8]
        rng.shuffle(first)
        return {"classes": cl, "first": first, "ops": [[rng.randrange(n), rng.randrange(n), rng.randrange(4)] for _ in range(8)]}
    for _ in range(rng.randint(3, 14)):
        k = rng.choice(["set", "set", "set", "set", "conn", "conn", "disc", "gconn", "grp", "new", "other"])
        i = rng.randrange(3)
        if k == "set":
            f = rng.choice("abd")
            ops.append([k, i, f, rng.choice([0, 1, 2, 3, 1.5, "T", "F"]) if f != "b" else rng.choice(VALS)])
        elif k == "other":
            ops.append([k, i, "zz", rng.randrange(3)])
        elif k in ("conn", "disc"):
            ops.append([k, i, rng.choice("abd")])
        else:
            ops.append([k, i])
    return {"flavor": rng.choice(FLAVORS), "alias": rng.randrange(len(ALIASES)), "eq": rng.randrange(len(EQS)), "cache": rng.random() < 0.7, "desc": rng.random() < 0.3, "ops": ops}


KNOWN = {"F24": {"flavor": "dc", "alias": 0, "eq": 0, "ops": [["grp", 0], ["copy", 0]]}}
