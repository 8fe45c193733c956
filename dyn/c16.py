"""C16 scenarios: every set operation on EventedSet, EventedOrderedSet and OrderedSet and on a builtin set (a dict for the order) side by
side; exactly one exact items_changed event per changing method."""
import copy
import itertools

from psygnal.containers import EventedOrderedSet, EventedSet, OrderedSet

BOUND = "exhaustive: single operations (about 300 argument combinations) on sets of size 0..3 for 3 classes, pairs of 40 operations; random: <=10 operations"
CLS = {"e": EventedSet, "o": EventedOrderedSet, "p": OrderedSet}


def failing(vals):
    yield from vals
    raise ZeroDivisionError


def mkarg(x, t, cls):
    """argument descriptor [form, items] -> iterable"""
    f, its = x
    its = [[] if i == "u" else i for i in its]
    if f == "self":
        return t
    if f == "list":
        return list(its)
    if f == "set":
        return set(its)
    if f == "iter":
        return iter(its)
    if f == "fail":
        return failing(its)
    if f == "own":
        return set(its) if cls is set else cls(its)
    if f == "int":
        return 5
    if f == "dict":
        return dict.fromkeys(its)
    raise AssertionError(f)


MUT = {"update", "difference_update", "intersection_update", "symmetric_difference_update"}
PURE = {"union", "difference", "intersection", "symmetric_difference"}
PRED = {"issubset", "issuperset", "isdisjoint"}
INPL = {"ior": "|=", "iand": "&=", "isub": "-=", "ixor": "^="}
BINO = {"or": "|", "and": "&", "sub": "-", "xor": "^"}
CMP = ["<", "<=", ">", ">=", "==", "!="]


def run_pydantic(sc):
    """a field of a pydantic model: a set of the class with the items given, an ordered one in the order given"""
    import pydantic
    cls = CLS[sc["cls"]]
    M = pydantic.create_model("M", s=(cls[int] if sc["typed"] else cls, ...))
    items = sc["pyd"]
    try:
        got = M(s=items if sc["as"] == "list" else tuple(items) if sc["as"] == "tuple" else iter(items)).s
    except (pydantic.ValidationError, TypeError):
        return None if any(isinstance(i, list) for i in items) else f"{sc}: refused"
    want = list(dict.fromkeys(items))
    if type(got) is not cls or (set(got) != set(want) if sc["cls"] == "e" else list(got) != want):
        return f"a field {cls.__name__} given {items} has {got!r}"
    return None


def run(sc):
    if "pyd" in sc:
        return run_pydantic(sc)
    cls = CLS[sc["cls"]]
    a = set(sc["init"])
    b = cls(sc["init"])
    order = list(dict.fromkeys(sc["init"]))
    evs = []
    if hasattr(b, "events"):
        b.events.items_changed.connect(lambda x, y: evs.append((x, y)))
    for op in sc["ops"]:
        del evs[:]
        before = set(a)
        border = list(b)
        k = op[0]
        if k == "discard" and op[1] == "u" and not a:
            continue          # CPython does not hash the key when popping from an empty dict

        def ex(t, c):
            its = lambda xs: [mkarg(x, t, c) for x in xs]    # noqa: E731
            it = lambda i: [] if i == "u" else i    # noqa: E731
            if k in ("add", "discard", "remove"):
                return getattr(t, k)(it(op[1]))
            if k == "pop":
                if c is set:
                    if not t:
                        raise KeyError
                    return None
                return t.pop()
            if k == "clear":
                return t.clear()
            if k in MUT or k in PURE:
                return getattr(t, k)(*its(op[1]))
            if k in PRED:
                return getattr(t, k)(*its(op[1]))
            if k in INPL or k in BINO or k == "cmp":
                x = mkarg(op[1], t, c)
                if k == "ior":
                    t |= x
                elif k == "iand":
                    t &= x
                elif k == "isub":
                    t -= x
                elif k == "ixor":
                    t ^= x
                elif k == "or":
                    return t | x
                elif k == "and":
                    return t & x
                elif k == "sub":
                    return t - x
                elif k == "xor":
                    return t ^ x
                else:
                    return [t < x, t <= x, t > x, t >= x, t == x, t != x]
                return None
            if k == "contains":
                return it(op[1]) in t
            if k == "len":
                return len(t)
            if k == "copy":
                return t.copy() if op[1] == 0 else copy.copy(t)
            if k == "iter":
                return sorted(t, key=repr)
            raise AssertionError(op)
        ra = rb = ea = eb = None
        try:
            ra = ex(a, set)
        except Exception as e:
            ea = e
        try:
            rb = ex(b, cls)
        except Exception as e:
            eb = e
        if k == "pop" and eb is None:
            if rb not in a:
                return f"pop returned {rb!r} from {before}"
            if sc["cls"] != "e" and rb != border[0] and rb != border[-1]:
                return "pop from an ordered set is neither the first nor the last item"
            a.discard(rb)
        elif type(ea) is not type(eb):
            return f"{op} on {before}: builtin {ea!r}, evented {eb!r}"
        elif ea is None:
            if isinstance(ra, set):
                if type(rb) is not cls or set(rb) != ra or len(list(rb)) != len(ra):
                    return f"{op} on {before}: result {rb!r}, builtin {ra!r}"
                if rb is b:
                    return f"{op}: result is the set itself"
                if hasattr(rb, "events") and rb.events is b.events:
                    return f"{op}: result shares the events"
                if sc["cls"] != "e" and k in ("copy", "difference", "intersection"):
                    if list(rb) != [x for x in border if x in ra]:
                        return f"{op}: result order {list(rb)}, from {border}"
            elif ra != rb or type(ra) is not type(rb):
                return f"{op} on {before}: result {rb!r}, builtin {ra!r}"
        if set(b) != a or len(b) != len(a) or len(list(b)) != len(a):
            return f"{op} on {before}: contents {set(b)}, builtin {a}"
        if sc["cls"] != "e":
            now = list(b)
            kept = [x for x in border if x in a]
            if now[:len(kept)] != kept and k not in INPL and not (ea is not None):
                return f"{op}: order {now} after {border}"
            new = now[len(kept):]
            if k == "update" and ea is None:
                want = [x for y in op[1] if y[0] in ("list", "iter", "fail", "dict", "own") for x in y[1]]
                if all(y[0] in ("list", "iter", "fail", "dict", "self") or (y[0] == "own") for y in op[1]):
                    want = list(dict.fromkeys(x for x in want if x not in before))
                    if new != want:
                        return f"{op}: new items in order {new}, expected insertion order {want}"
        if hasattr(b, "events"):
            add, rem = a - before, before - a
            for x, y in evs:
                if type(x) is not tuple or type(y) is not tuple or len(set(x)) != len(x) or len(set(y)) != len(y) or set(x) & set(y) or not (x or y):
                    return f"{op} on {before}: event {x}, {y}"
            if k in INPL:
                cur = set(before)
                for x, y in evs:
                    if set(x) & cur or set(y) - cur:
                        return f"{op} on {before}: events {evs}"
                    cur = (cur | set(x)) - set(y)
                if cur != a:
                    return f"{op} on {before}: events {evs} replay to {cur}, contents {a}"
            else:
                if len(evs) != (1 if add or rem else 0):
                    return f"{op} on {before}: {len(evs)} events {evs}"
                if evs and (set(evs[0][0]) != add or set(evs[0][1]) != rem):
                    return f"{op} on {before}: event {evs[0]}, difference +{add} -{rem}"
            if b.events.items_changed._is_paused or b.events.items_changed._args_queue:
                return f"{op}: events left paused"
    return None


ARGS = [["list", []], ["list", [1]], ["list", [1, 2, 1]], ["list", [7, 8, 7]], ["set", [1, 9]], ["iter", [2, 2, 5]], ["own", [1, 6]], ["self", []], ["fail", [1, 8]], ["int", []], ["list", [1, "u", 3]], ["dict", [3, 1]]]


def single():
    for i in (1, 2, 9, "u"):
        for k in ("add", "discard", "remove", "contains"):
            if i == "u" and k in ("discard", "remove", "contains"):
                yield [k, "u"]
            else:
                yield [k, i]
    for k in ("pop", "clear", "len", "iter"):
        yield [k]
    yield ["copy", 0]
    yield ["copy", 1]
    for k in sorted(MUT | PURE):
        for x in ARGS:
            yield [k, [x]]
        if k not in ("symmetric_difference", "symmetric_difference_update"):
            yield [k, []]
            for x, y in itertools.combinations(ARGS[:9], 2):
                yield [k, [x, y]]
    for k in sorted(PRED):
        for x in ARGS:
            yield [k, [x]]
    for k in list(INPL) + list(BINO) + ["cmp"]:
        for x in (["set", []], ["set", [1, 9]], ["own", [1, 2]], ["own", []], ["self", []]):
            if not (k == "cmp" and x[0] == "own"):
                yield [k, x]


def exhaustive(tier):
    for cls, typed, form in itertools.product(CLS, (False, True), ("list", "tuple", "iter")):
        for items in ([], [3], [30, 1, 200, 5], [5, 5, 1, 5], [1, 2, 3], [3, 2, 1], [2, [1]]):
            yield {"cls": cls, "typed": typed, "as": form, "pyd": items}
    s = [o for o in single() if not skip(o)]
    for cls in "eop":
        for init in ([], [1], [1, 2], [3, 1, 2]):
            for o in s:
                yield {"cls": cls, "init": init, "ops": [o]}
    for cls in "eop":
        for x, y in itertools.product(s[::6], s[::5]):
            yield {"cls": cls, "init": [2, 1], "ops": [x, y]}


def skip(o):
    """argument combinations outside the property: CPython's own order of evaluating unhashable items / failing iterators"""
    if o[0] in ("isdisjoint", "issuperset", "issubset") and any(x[0] in ("fail",) for x in o[1]):
        return True
    if o[0] in MUT | PURE and o[0] not in ("update", "union") and any(x[0] in ("fail", "int") or "u" in x[1] for x in o[1]):
        return True
    if o[0] in PRED and any("u" in x[1] for x in o[1]):
        return True
    return False


def random_scenario(rng):
    s = [o for o in single() if not skip(o)]
    return {"cls": rng.choice("eeoop"), "init": rng.sample([1, 2, 3, 5, 9], rng.randint(0, 5)), "ops": [rng.choice(s) for _ in range(rng.randint(1, 10))]}
