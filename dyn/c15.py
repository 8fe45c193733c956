"""C15 scenarios: every dict operation on EventedDict (and TypedMutableMapping) and on a builtin dict side by side; a mirror replayed from
the events is compared at every event."""
import copy
import itertools

from psygnal.containers import EventedDict

BOUND = "exhaustive: all sequences of <=2 operations from 49 on 4 initial dicts, with and without a value type; random: <=12 operations"

KEYS = {"n": None, "t": (1, 2), "u": []}
VALS = {"L": [1], "K": [1], "T": True, "M": [2], "N": float("nan")}


def key(k):
    return KEYS.get(k, k) if isinstance(k, str) else k


def val(v):
    return VALS.get(v, v) if isinstance(v, str) else v


class Missing:
    """object with keys()"""
    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]


def failing(its):
    yield from its
    raise ZeroDivisionError


def run(sc):
    bt = (int, list, float) if sc.get("typed") else ()
    a = {key(k): val(v) for k, v in sc["init"]}
    b = EventedDict(a, basetype=bt) if bt else EventedDict(a)
    evs, errs, mirror, pend = [], [], dict(a), []

    def ident(x, y):
        return list(x) == list(y) and all(p is q for p, q in zip(x.values(), y.values()))

    def now(w):
        if not ident(b._dict, mirror):
            errs.append(f"at {w}: contents {b._dict}, replayed {mirror}")

    def ing(kind, k):
        evs.append(kind)
        now(kind)
        pend.append((kind, k))
        if (kind == "adding") == (k in mirror):
            errs.append(f"{kind} {k}")

    def added(k, v):
        evs.append("added")
        if not pend or pend.pop() != ("adding", k):
            errs.append("added without adding")
        mirror[k] = v
        now("added")

    def changed(k, old, new):
        evs.append("changed")
        if not pend or pend.pop() != ("changing", k):
            errs.append("changed without changing")
        if mirror.get(k) is not old:
            errs.append(f"changed: old {old!r}, was {mirror.get(k)!r}")
        mirror[k] = new
        now("changed")

    def removed(k, v):
        evs.append("removed")
        if not pend or pend.pop() != ("removing", k):
            errs.append("removed without removing")
        if k not in mirror or mirror.pop(k) is not v:
            errs.append(f"removed {k}: wrong value")
        now("removed")
    for nm in ("adding", "changing", "removing"):
        b.events[nm].connect(lambda k, nm=nm: ing(nm, k))
    b.events.added.connect(added)
    b.events.changed.connect(changed)
    b.events.removed.connect(removed)
    for op in sc["ops"]:
        del evs[:], pend[:]
        before = dict(a)
        k = op[0]
        if k == "pop" and op[1] == "u" and not a:
            continue          # CPython does not hash the key when popping from an empty dict

        def ok(v):
            return not bt or isinstance(v, bt)

        def ex(t, ev):
            def put(kk, v):
                if not ev and not ok(v):
                    raise TypeError
                t[kk] = v

            def upd(its, kw):
                if ev:
                    return None
                for kk, v in its:
                    put(kk, v)
                for kk, v in kw.items():
                    put(kk, v)
            if k == "set":
                return put(key(op[1]), val(op[2]))
            if k == "same":
                kk = key(op[1])
                return put(kk, t[kk])
            if k == "del":
                del t[key(op[1])]
                return None
            if k == "pop":
                return t.pop(*[key(op[1])] + [val(x) for x in op[2:]])
            if k == "popitem":
                if ev:
                    kk, v = t.popitem()
                    return kk, v
                if not t:
                    raise KeyError
                kk = next(iter(t))
                return kk, t.pop(kk)
            if k == "clear":
                return t.clear()
            if k == "setdefault":
                kk = key(op[1])
                if len(op) == 2:
                    if not ev and kk not in t and not ok(None):
                        raise TypeError
                    return t.setdefault(kk)
                if not ev and kk not in t and not ok(val(op[2])):
                    raise TypeError
                return t.setdefault(kk, val(op[2]))
            if k == "update":
                its = [(key(x), val(y)) for x, y in op[1]]
                m, kw = op[2], {x: val(y) for x, y in (op[3] if len(op) > 3 else [])}
                if not ev:
                    src = its if m in (1, 4) else list(dict(its).items()) if m != 5 else list(t.items())
                    for kk, v in src:
                        put(kk, v)
                    if m == 4:
                        raise ZeroDivisionError
                    for kk, v in kw.items():
                        put(kk, v)
                    return None
                src = {0: lambda: dict(its), 1: lambda: list(its), 2: lambda: Missing(dict(its)), 3: lambda: EventedDict(dict(its)), 4: lambda: failing(its), 5: lambda: b}[m]()
                return t.update(src, **kw)
            if k == "badupdate":
                return t.update(5)
            if k == "get":
                return t[key(op[1])]
            if k == "getd":
                return t.get(*[key(op[1])] + [val(x) for x in op[2:]])
            if k == "contains":
                return key(op[1]) in t
            if k == "len":
                return len(t)
            if k == "iter":
                return list(t), list(t.keys()), list(t.values()), list(t.items())
            if k == "eq":
                return t == {key(x): val(y) for x, y in op[1]}, t != {key(x): val(y) for x, y in op[1]}, t == dict(t)
            if k == "copy":
                return [t.copy, lambda: copy.copy(t)][op[1]]()
            raise AssertionError(op)
        ra = rb = ea = eb = None
        try:
            ra = ex(a, False)
        except Exception as e:
            ea = e
        try:
            rb = ex(b, True)
        except Exception as e:
            eb = e
        if type(ea) is not type(eb):
            return f"{op} on {before}: builtin {ea!r}, evented {eb!r}"
        if ea is None and k == "copy":
            if type(rb) is not EventedDict or rb is b or rb._basetypes != b._basetypes or any(len(s) for s in rb.events.signals.values()):
                return f"{op}: copy is not an independent EventedDict with the same value types"
            rb = rb._dict
        if ea is None and not (ra is rb or (ident(ra, rb) if isinstance(ra, dict) and isinstance(rb, dict) else ra == rb or k in ("get", "getd", "pop", "setdefault") and ra is rb)):
            return f"{op} on {before}: result {rb!r}, builtin {ra!r}"
        if not ident(a, b._dict):
            return f"{op} on {before}: contents {b._dict}, builtin {a}"
        if errs:
            return f"{op} on {before}: {errs[0]}; events {evs}"
        if not ident(mirror, a):
            return f"{op} on {before}: events {evs} replay to {mirror}, contents {a}"
        if ea is None and pend:
            return f"{op}: {pend} has no after-event"
        if ea is None and k in ("same", "get", "getd", "contains", "len", "iter", "eq", "copy") and evs:
            return f"{op} on {before}: emitted {evs}"
        if ea is None and k == "set":
            w = ["adding", "added"] if key(op[1]) not in before else [] if before[key(op[1])] is val(op[2]) else ["changing", "changed"]
            if evs != w:
                return f"{op} on {before}: emitted {evs}"
        if ea is None and k in ("del", "pop", "popitem", "clear") and evs != ["removing", "removed"] * (len(before) - len(a)):
            return f"{op} on {before}: emitted {evs}"
        if ea is None and sum(e == "added" for e in evs) - sum(e == "removed" for e in evs) != len(a) - len(before):
            return f"{op} on {before}: emitted {evs}"
        if ea is not None and k in ("del", "pop", "popitem", "get") and evs:
            return f"{op} on {before}: failed with {ea!r} but emitted {evs}"
    return None


def alphabet():
    out = [["popitem"], ["clear"], ["badupdate"], ["iter"], ["len"], ["eq", [["a", 1]]], ["copy", 0], ["copy", 1]]
    for k in ("a", "z", "u"):
        out += [["set", k, 1], ["set", k, "L"], ["set", k, "bad"], ["same", k], ["del", k], ["pop", k], ["pop", k, 5], ["setdefault", k], ["setdefault", k, "M"],
                ["get", k], ["getd", k], ["getd", k, 3], ["contains", k]]
    out += [["set", "a", "T"], ["set", "b", "K"], ["setdefault", "b", "K"], ["update", [["a", "T"], ["b", "K"]], 0]]
    out += [["update", [["a", 2], ["q", 3]], m] for m in range(6)] + [["update", [["a", "bad"], ["q", 3]], 1], ["update", [], 0, [["a", 9], ["w", 1]]], ["update", [["a", 1], ["q", "bad"]], 0]]
    return out


def exhaustive(tier):
    al = alphabet()
    for typed in (0, 1):
        for init in ([], [["a", 1]], [["a", 1], ["b", "L"]], [["n", "N"], ["t", 3], ["a", 2]]):
            for o in al:
                yield {"init": init, "ops": [o], "typed": typed}
    for typed in (0, 1):
        for x, y in itertools.product(al, repeat=2):
            yield {"init": [["a", 1], ["b", "L"]], "ops": [x, y], "typed": typed}


def random_scenario(rng):
    al = alphabet()

    def sub(o):
        o = list(o)
        if len(o) > 1 and o[1] in ("a", "z") and isinstance(o[1], str):
            o[1] = rng.choice(["a", "b", "z", "n", "t", 1, 2.5])
        if o[0] == "set":
            o[2] = rng.choice([1, 2, "L", "K", "T", "M", "N", 1000, "bad"])
        return o
    return {"init": [[k, rng.choice([1, 2, "L"])] for k in rng.sample(["a", "b", "c", "n", "t"], rng.randint(0, 4))],
            "ops": [sub(rng.choice(al)) for _ in range(rng.randint(1, 12))], "typed": rng.randint(0, 1)}
