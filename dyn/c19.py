"""C19 scenarios: EventedModel classes (plain, property setters with declared/guessed dependencies, nested, validated, frozen, inherited) next
to a plain pydantic twin; stored values, errors and the emitted (name, value) list are compared after every assignment, update and reset;
with assigning callbacks the last value heard of every name must be the one held."""
import itertools
import random
import types
from typing import Any, List, Optional

import numpy as np
import pydantic
from pydantic import Field

from psygnal import EventedModel

BOUND = "exhaustive: 9 model classes x listener sets x single and paired assignments; random: <=12 operations with up to 2 assigning callbacks"


class Sub(EventedModel):
    x: int = 3
    y: str = "s"


class TSub(pydantic.BaseModel):
    x: int = 3
    y: str = "s"


class Opt(EventedModel):
    z: Optional[Sub] = Sub(x=4)
    w: int = 0


class TOpt(pydantic.BaseModel):
    z: Optional[TSub] = TSub(x=4)
    w: int = 0


CONF = {
    "plain": {}, "props": {"allow_property_setters": True}, "deps": {"allow_property_setters": True, "field_dependencies": {"p": ["a"], "q": ["a", "b"]}},
    "guess": {"allow_property_setters": True, "guess_property_dependencies": True}, "valid": {"validate_assignment": True}, "nested": {},
    "vdeps": {"validate_assignment": True, "allow_property_setters": True, "field_dependencies": {"p": ["a"], "b": ["a"]}}, "arr": {"arbitrary_types_allowed": True},
    "inh": None, "strict": {"extra": "forbid", "reemission": "queued"},
}
NAMES = list(CONF)


def num(v):
    return v if isinstance(v, int) else 0


def make(kind, base, sub, opt):
    conf = CONF[kind]
    E = base is EventedModel
    if kind == "inh":
        B = make("deps", base, sub, opt)
        conf = {"allow_property_setters": True, "field_dependencies": {"p": ["a"], "q": ["a", "b"], "r": ["e"]}}
        ns = {"__annotations__": {"e": int}, "e": 5, "__module__": __name__, "__qualname__": "Inh", "model_config": conf if E else {}}

        def _gr(self):
            return num(self.e) - 1

        def _sr(self, v):
            self.e = v + 1
        ns["r"] = property(_gr, _sr)
        return types.new_class("Inh", (B,), {}, lambda d: d.update(ns))
    ann = {"a": int, "b": str, "c": List[int]}
    ns = {"a": 1, "b": "x", "c": Field(default_factory=list), "__module__": __name__, "__qualname__": kind}
    keep = {"validate_assignment", "extra", "arbitrary_types_allowed"}
    ns["model_config"] = conf if E else {k: v for k, v in conf.items() if k in keep}
    if kind == "nested":
        ann.update(s=sub, o=Optional[sub], t=opt)
        ns.update(s=sub(x=7), o=None, t=Field(default_factory=opt))
    if kind == "arr":
        ann["d"] = np.ndarray
        ns["d"] = np.zeros(2)
    if kind == "strict":
        ann["f"] = int
        ns["f"] = Field(9, frozen=True)
        ann["g"] = Any
        ns["g"] = None
    if "allow_property_setters" in conf:
        def _gp(self):
            return num(self.a) * 2

        def _sp(self, v):
            self.a = v // 2

        def _gq(self):
            return (self.a, self.b)

        def _sq(self, v):
            self.a, self.b = v
        ns["p"] = property(_gp, _sp)
        if kind != "vdeps":
            ns["q"] = property(_gq, _sq)
    if kind == "vdeps":
        def chk(self):
            if self.a == 13:
                raise ValueError("13")
            return self
    ns["__annotations__"] = ann
    return types.new_class(kind, (base,), {}, lambda d: d.update(ns))


_cache = {}


def classes(kind):
    if kind not in _cache:
        _cache[kind] = (make(kind, EventedModel, Sub, Opt), make(kind, pydantic.BaseModel, TSub, TOpt))
    return _cache[kind]


PROPS = {"p": ["a"], "q": ["a", "b"], "r": ["e"]}
VALS = {"a": [1, 2, 3, "4", 13, True, "bad", None], "b": ["x", "y", 5], "c": [[], [1], [1, 2], "no"], "p": [2, 4, 6, 7], "q": [[1, "x"], [2, "x"], [3, "z"]], "e": [5, 6], "r": [4, 5],
        "d": ["A0", "A1", "A2"], "f": [9, 10], "g": ["N", 1, 1.0, None], "s": ["S3", "S7", 1], "o": ["S3", None], "t": ["T"], "zz": [1]}


def val(name, v, ev=True):
    if name == "q" and isinstance(v, list):
        return tuple(v)
    if name == "d":
        return {"A0": np.zeros(2), "A1": np.ones(2), "A2": np.zeros(3)}[v]
    if v == "N":
        return NAN
    if name in ("s", "o") and isinstance(v, str):
        return (Sub if ev else TSub)(x=int(v[1]))
    if name == "t":
        return (Opt if ev else TOpt)(w=5)
    return v


NAN = float("nan")


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return bool(a == b)


def dump(v):
    if isinstance(v, pydantic.BaseModel):
        return {k: dump(getattr(v, k)) for k in type(v).model_fields}
    if isinstance(v, np.ndarray):
        return ("arr", v.tolist())
    return v


def same(a, b):
    a, b = dump(a), dump(b)
    return a is b or repr(a) == repr(b)


def run_reserved(sc):
    """fields named like attributes of SignalGroup"""
    import warnings
    n = sc["reserved"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        body = {"__annotations__": {"a": int, n: int}, "a": 1, n: 1, "__module__": __name__}
        if sc["deps"]:
            body["model_config"] = {"field_dependencies": {n: ["a"]}}
        K = type(EventedModel)("Reserved", (EventedModel,), body)
    m = K()
    got, all_ = [], []
    for f in ("a", n):
        m.events[f].connect(lambda v, f=f: got.append((f, v)))
    m.events.connect(lambda info: all_.append((info.signal.name, info.args)))
    for i, f in enumerate(("a", n, n, "a")):
        setattr(m, f, 5 + i // 2)
    want = [("a", 5), (n, 5), (n, 6), ("a", 6)]
    if got != want:
        return f"emissions {got}, expected {want}"
    if all_ != [(f, (v,)) for f, v in want]:
        return f"emissions of the group {all_}, expected those of {want}"
    return None


def run_decl(sc):
    """models with settable properties, declared in one class or in two bases: exactly what changed is announced"""
    deps = sc["decl"]

    def prop(n, sign):
        ns = {}
        fs = deps[n]
        exec(f"def get(self): return {' + '.join('self.' + f for f in fs)}\ndef set_(self, v): self.{fs[0]} = {sign} * v", ns)
        return property(ns["get"], ns["set_"])
    cfg = {"allow_property_setters": True}
    cfg.update({"guess_property_dependencies": True} if sc["guess"] else {"field_dependencies": dict(deps)})

    def mk(name, bases, fields, props, sign, c):
        return type(EventedModel)(name, bases, {"__annotations__": {f: int for f in fields}, **{f: 1 for f in fields}, **{n: prop(n, sign) for n in props}, "__module__": __name__, "model_config": c})
    F, P = ["a", "b", "c"], list(deps)
    if sc["split"]:
        A = mk("A", (EventedModel,), F, P if sc["split"] == 2 else P[:1], 1, {"allow_property_setters": True})
        B = mk("B", (EventedModel,), F, P if sc["split"] == 2 else P[1:], -1, {"allow_property_setters": True})
        K = mk("K", (A, B), [], [], 1, cfg)
    else:
        K = mk("K", (EventedModel,), F, P, 1, cfg)
    sign = {n: -1 if sc["split"] == 1 and i else 1 for i, n in enumerate(P)}
    m = K()
    got = []
    if set(m.events) != set(F + P):
        return f"signals {sorted(m.events)}, expected {F + P}"
    for n in F + P:
        m.events[n].connect(lambda v, n=n: got.append((n, v)))
    for n, v in sc["set"]:
        if n not in F + P:
            continue
        before = {x: getattr(m, x) for x in F + P}
        del got[:]
        setattr(m, n, v)
        after = {x: getattr(m, x) for x in F + P}
        t, w = (n, v) if n in F else (deps[n][0], sign[n] * v)
        if after[t] != w or any(after[x] != before[x] for x in F if x != t):
            return f"{n} = {v}: {before} became {after}, expected {t} = {w}"
        want = sorted((x, after[x]) for x in F + P if after[x] != before[x])
        if sorted(got) != want:
            return f"dependencies {deps}: {n} = {v} emitted {got}, changed: {want}"
    return None


def run(sc):
    if "decl" in sc:
        return run_decl(sc)
    if "reserved" in sc:
        return run_reserved(sc)
    K, T = classes(sc["kind"])
    m, t = K(), T()
    cfg = K.model_config
    deps = {}
    for prop, fs in cfg.get("field_dependencies", {}).items():
        for f in fs:
            deps.setdefault(f, set()).add(prop)
    if cfg.get("guess_property_dependencies"):
        deps = {"a": {"p", "q"}, "b": {"q"}}
    names = [n for n in [*K.model_fields, "p", "q", "r"] if hasattr(m, n)]
    if sc["kind"] in ("plain", "valid", "nested", "arr", "strict"):
        names = [n for n in names if n not in PROPS]
    if set(m.events) != {n for n in names if n != "f"}:
        return f"signals {sorted(m.events)}, expected {names}"
    if K().events is m.events:
        return "two models share their events"
    log, glog = [], []
    react = {n: (tgt, v) for n, tgt, v in sc.get("react", []) if n in m.events and tgt in m.events}
    fuel = [sc.get("fuel", 3)]

    def listener(n):
        def cb(v):
            log.append((n, v))
            if not react and not updating and not same(v, getattr(m, n)):
                errs.append(f"{n} emitted {v!r} while holding {getattr(m, n)!r}")
            if n in react and fuel[0] > 0:
                fuel[0] -= 1
                setattr(m, react[n][0], val(react[n][0], react[n][1]))
        return cb
    errs, updating = [], []
    keep = []
    listened = [n for n in sc["listen"] if n in m.events]
    for n in listened:
        keep.append(listener(n))
        m.events[n].connect(keep[-1])
    final = []

    def group_cb(info):
        glog.append((info.signal.name, info.args[0]))
        if updating and final and not same(m, final[0]):
            errs.append("group listener called in the middle of update()")
    if sc.get("group"):
        m.events.connect(group_cb)

    def snapshot():
        return {n: getattr(m, n) for n in names}

    for op in sc["ops"]:
        del log[:], glog[:], errs[:]
        k = op[0]
        before = snapshot()
        e1 = e2 = None
        heard0 = dict(before)
        if k == "set":
            n = op[1]
            assigned = [n] if n in names or n == "zz" else None
            if assigned is None:
                continue
            try:
                setattr(t, n, val(n, op[2], False))
            except Exception as e:
                e1 = e
            try:
                setattr(m, n, val(n, op[2]))
            except Exception as e:
                e2 = e
            if (e1 is None) != (e2 is None) or type(e1) is not type(e2):
                return f"{op}: {e2!r}, pydantic {e1!r}"
            todo = [n]
        elif k == "update":
            vals = {a: b for a, b in op[1] if a in names and b is not True}
            mode = op[2]
            if mode == "model" or any(v == "bad" for v in vals.values()):
                vals = {a: b for a, b in vals.items() if a in K.model_fields and a not in ("f", "s", "o", "t", "d") and b not in ("bad", "no", None) and type(b) is type(getattr(K(), a))}
            try:
                other = t.model_copy(deep=True)
                for a, b in vals.items():
                    nm = getattr(other, a)
                    if isinstance(nm, pydantic.BaseModel) and isinstance(b, dict):
                        for x, y in b.items():
                            setattr(nm, x, y)
                    else:
                        setattr(other, a, val(a, b, False))
            except Exception:
                continue
            if mode == "model":
                try:
                    src = K.model_construct(**{**{f: getattr(m, f) for f in K.model_fields if f not in ("f", "s", "o", "t", "d")}, **vals})
                except Exception:
                    continue
                arg = src
                if sc["kind"] in ("nested", "arr", "strict"):
                    continue
            else:
                arg = {a: (b if isinstance(b, dict) else val(a, b)) for a, b in vals.items()}
            t = other
            updating.append(1)
            final[:] = [t]
            try:
                m.update(arg)
            except Exception as e:
                e2 = e
            del updating[:], final[:]
            if e2 is not None:
                return f"{op}: {e2!r}"
            todo = list(vals)
        elif k == "reset":
            f = {"f": 9} if sc["kind"] == "strict" else {}
            t = T(**f)
            try:
                m.reset()
            except Exception as e:
                return f"reset: {e!r}"
            todo = list(K.model_fields)
        elif k == "eq":
            o = K(**{a: val(a, b) for a, b in op[1] if a in ("a", "b") and isinstance(b, int if a == "a" else str)})
            want = all(eq(getattr(m, x), getattr(o, x)) for x in K.model_fields)
            if (m == o) != want or (o == m) != want:
                return f"{m!r} == {o!r} is {m == o}"
            continue
        if react:
            for n in listened:
                mine = [v for x, v in log if x == n]
                if mine and (n not in PROPS or any(n in d for d in deps.values()) and n != "r") and not same(mine[-1], getattr(m, n)):
                    return f"{op}: last value heard of {n}: {mine[-1]!r}, held: {getattr(m, n)!r}"
                if not mine and before[n] is not getattr(m, n) and not eq(before[n], getattr(m, n)) and direct(n, deps):
                    return f"{op}: {n} changed from {before[n]!r} to {getattr(m, n)!r} without an event"
            # the twin follows
            for f in K.model_fields:
                if f not in ("s", "o", "t", "f"):
                    t.__dict__[f] = getattr(m, f)
            if sc["kind"] in ("nested",):
                return None
            continue
        if errs:
            return f"{op}: {errs[0]}"
        for n in names:
            if not same(getattr(m, n), getattr(t, n)):
                return f"{op}: {n} is {getattr(m, n)!r}, pydantic {getattr(t, n)!r}"
        heard = set(todo)
        for n in list(heard):
            heard.update(PROPS.get(n, []) if n in names else [])
        for n in list(heard):
            if n in names and not eq(before[n], getattr(m, n)):
                heard.update(deps.get(n, ()))
        if k != "set":      # assigned one after the other: dependents may change repeatedly
            log[:] = collapse(log, before)
            glog[:] = collapse(glog, before)
            und = {n for n in PROPS if n != "r" and not any(n in d for d in deps.values())}     # not declared: may change silently
            log[:] = [x for x in log if x[0] not in und]
            glog[:] = [x for x in glog if x[0] not in und]
            heard -= und
        exp = sorted((n, repr(dump(getattr(m, n)))) for n in heard if n in names and n in m.events and n in listened and changed(before[n], getattr(m, n), k))
        got = sorted((n, repr(dump(v))) for n, v in log)
        if exp != got:
            return f"{op}: emitted {got}, expected {exp}"
        if sc.get("group"):
            exp = sorted((n, repr(dump(getattr(m, n)))) for n in heard if n in names and n in m.events and changed(before[n], getattr(m, n), k))
            got = sorted((n, repr(dump(v))) for n, v in glog)
            if exp != got:
                return f"{op}: group heard {got}, expected {exp}"
        if m._delay_check_semaphore or m._changes_queue or m._primary_changes:
            return f"{op}: pending changes left"
    return None


def collapse(log, before):
    return [(n, v) for n, v in {n: v for n, v in log}.items() if changed(before[n], v, "update")]


def changed(a, b, k):
    return not eq(a, b) and (k == "set" or a is not b)


def direct(n, deps):
    return n not in PROPS and not any(n in v for v in deps.values())


def exhaustive(tier):
    for n in ("connect", "all", "signals", "disconnect", "psygnal_x", "instance", "blocked"):
        for deps in (False, True):
            yield {"reserved": n, "deps": deps}
    for d in ({"p": ["a", "b"]}, {"p": ["a", "b"], "q": ["b"]}, {"p": ["b"], "q": ["a", "b"]}, {"p": ["c"], "q": ["a"]}, {"p": ["a", "b", "c"], "q": ["b", "c"]}):
        for guess, split in itertools.product((False, True), (0, 1, 2)):
            yield {"decl": d, "guess": guess, "split": split, "set": [["a", 2], ["b", 3], ["b", 3], ["c", 4], ["p", 7], ["q", 9], ["a", 2], ["q", 1], ["p", 1]]}
    for kind in NAMES:
        ns = [n for n in ("a", "b", "c", "p", "q", "r", "e", "d", "f", "g", "s", "o", "t", "zz")]
        for listen, group in ((["a", "b", "c", "p", "q", "r", "e", "d", "g", "s", "o", "t"], False), ([], True), (["p"], False), (["a"], False), ([], False), (["q", "b"], True)):
            for n in ns:
                for v in VALS[n]:
                    yield {"kind": kind, "listen": listen, "group": group, "ops": [["set", n, v], ["set", "a", 2], ["set", n, VALS[n][0]], ["reset"]]}
            yield {"kind": kind, "listen": listen, "group": group, "ops": [["update", [["a", 3], ["b", "z"], ["c", [4]]], "dict"], ["eq", [["a", 3], ["b", "z"]]], ["update", [["a", 1], ["b", "z"]], "model"], ["eq", []], ["reset"], ["eq", []]]}
            yield {"kind": kind, "listen": listen, "group": group, "ops": [["update", [["p", 8], ["b", "z"], ["s", {"x": 1}], ["o", None], ["t", {"w": 1, "z": None}]], "dict"], ["update", [["o", "S3"], ["a", 3]], "dict"], ["update", [["o", {"x": 1}]], "dict"], ["reset"]]}


def random_scenario(rng: random.Random):
    ops = []
    for _ in range(rng.randint(1, 12)):
        k = rng.choice(["set"] * 6 + ["update", "reset", "eq"])
        n = rng.choice(list(VALS))
        if k == "set":
            ops.append([k, n, rng.choice(VALS[n])])
        elif k == "update":
            ops.append([k, [[x, rng.choice(VALS[x])] for x in rng.sample(["a", "b", "c", "p", "e", "g"], rng.randint(1, 4))], rng.choice(["dict", "model"])])
        elif k == "eq":
            ops.append([k, [["a", rng.choice([1, 2, 3])], ["b", rng.choice(["x", "y"])]]])
        else:
            ops.append([k])
    sc = {"kind": rng.choice(NAMES), "listen": rng.sample(["a", "b", "c", "p", "q", "r", "e", "d", "g", "s", "o", "t"], rng.randint(0, 12)), "group": rng.random() < 0.4, "ops": ops}
    if rng.random() < 0.3:
        sc["react"] = [[rng.choice("abpq"), t, rng.choice([v for v in VALS[t] if v not in ("bad", None, "no", 13, 5, "4", True)])] for t in rng.choices(["a", "b", "p", "c"], k=rng.randint(1, 2))]
    return sc


KNOWN = {}
