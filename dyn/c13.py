"""C13 scenarios: every list operation on EventedList and on a builtin list side by side; results, error types, contents, a mirror
list replayed from the events (checked at every event), and the child connections."""
import copy
import itertools

from psygnal import Signal
from psygnal.containers import EventedList

BOUND = ("exhaustive: single operations with all indices/slices in -4..4 on lists of length 0..3, and pairs over 30 operations; "
         "random: <=10 operations, lists of length <=8, negative/extended/empty slices, repeated, nested and NaN items, child events on half")


class Child:
    sig = Signal(int)
    other = Signal()

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Child{self.n}"


NAN = float("nan")


class FailIter(Exception):
    pass


def failing(vals):
    yield from vals
    raise FailIter


def run(sc):
    kids = [Child(i) for i in range(4)]
    nests = [[1], [2, 3]]

    def item(x):
        if isinstance(x, str):
            return kids[int(x[1])] if x[0] == "k" else nests[int(x[1])] if x[0] == "n" else NAN
        return x

    def items(xs):
        return [item(x) for x in xs]
    child = bool(sc.get("child"))
    a, b = items(sc["init"]), None
    b = EventedList(a, child_events=child)
    if list(b) != a or type(b) is not EventedList:
        return "constructor contents"
    mirror = list(a)
    errs = []
    evs = []
    pend = []

    def ident(x, y):
        return len(x) == len(y) and all(p is q for p, q in zip(x, y))

    def now(what):
        if not ident(b._data, mirror):
            errs.append(f"at {what}: contents {b._data}, replayed {mirror}")

    def inserting(i):
        evs.append(("inserting", i))
        now(f"inserting({i})")
        pend.append(("i", i))

    def inserted(i, v):
        evs.append(("inserted", i, v))
        if not pend or pend.pop() != ("i", i):
            errs.append(f"inserted({i}) without inserting({i})")
        mirror.insert(i, v)
        now(f"inserted({i},{v})")

    def removing(i):
        evs.append(("removing", i))
        now(f"removing({i})")
        if not 0 <= i < len(mirror):
            errs.append(f"removing({i}) out of range")
        pend.append(("r", i))

    def removed(i, v):
        evs.append(("removed", i, v))
        if not pend or pend.pop() != ("r", i):
            errs.append(f"removed({i}) without removing({i})")
        if 0 <= i < len(mirror):
            if mirror.pop(i) is not v:
                errs.append(f"removed({i}, {v}): wrong item")
        now(f"removed({i},{v})")

    def changed(i, old, new):
        evs.append(("changed", i, old, new))
        try:
            prev = mirror[i]
            mirror[i] = new
        except Exception as e:
            errs.append(f"changed({i}): {e!r}")
            return
        if not (ident(prev, old) if isinstance(i, slice) else prev is old):
            errs.append(f"changed({i}): old value {old}, was {prev}")
        now(f"changed({i},{old},{new})")

    def reordered():
        evs.append(("reordered",))
        mirror[:] = b._data

    ch = []
    b.events.inserting.connect(inserting)
    b.events.inserted.connect(inserted)
    b.events.removing.connect(removing)
    b.events.removed.connect(removed)
    b.events.changed.connect(changed)
    b.events.reordered.connect(reordered)
    b.events.moving.connect(lambda *x: evs.append(("moving",) + x))
    b.events.moved.connect(lambda *x: evs.append(("moved",) + x))
    b.events.child_event.connect(lambda *x: ch.append(x))

    def sl(k):
        return slice(*k) if isinstance(k, list) else k

    for op in sc["ops"]:
        del evs[:], pend[:]
        before = list(a)
        k = op[0]

        def ex(t, ev):
            """perform on target t"""
            if k == "append":
                return t.append(item(op[1]))
            if k == "insert":
                return t.insert(op[1], item(op[2]))
            if k == "extend":
                x = items(op[1])
                if op[2] == 1:
                    x = iter(x)
                elif op[2] == 2:
                    x = tuple(x)
                elif op[2] == 3:
                    x = t
                elif op[2] == 4:
                    x = failing(x)
                return t.extend(x)
            if k == "iadd":
                t0 = t
                x = items(op[1]) if op[2] == 0 else t if op[2] == 3 else 5 if op[2] == 5 else iter(items(op[1]))
                t += x
                return t is t0
            if k == "pop":
                return t.pop(*op[1:])
            if k == "remove":
                return t.remove(item(op[1]))
            if k == "clear":
                return t.clear()
            if k == "set":
                t[op[1]] = item(op[2])
                return None
            if k == "setsl":
                x = items(op[2])
                if op[3] == 1:
                    x = iter(x)
                elif op[3] == 3:
                    x = t
                elif op[3] == 4:
                    x = failing(x)
                elif op[3] == 5:
                    x = 5
                t[sl(op[1])] = x
                return None
            if k == "del":
                del t[sl(op[1])]
                return None
            if k == "delbad":
                del t["x"]
                return None
            if k == "get":
                return t[sl(op[1])]
            if k == "getbad":
                return t["x"]
            if k == "reverse":
                return t.reverse() if not ev else t.reverse(emit_individual_events=bool(op[1]))
            if k == "index":
                return t.index(*([item(op[1])] + op[2:]))
            if k == "count":
                return t.count(item(op[1]))
            if k == "contains":
                return item(op[1]) in t
            if k == "iter":
                return list(t)
            if k == "reversed":
                return list(reversed(t))
            if k == "len":
                return len(t)
            if k == "copy":
                return [t.copy(), copy.copy(t)][op[1]]
            if k == "add":
                return t + items(op[1])
            if k == "radd":
                return items(op[1]) + t if not ev else items(op[1]) + t
            if k == "eq":
                return t == items(op[1])
            raise AssertionError(op)

        ra = rb = ea = eb = None
        try:
            ra = ex(a, False)
        except Exception as e:
            ea = e
        try:
            rb = ex(b, True)
        except Exception as e:
            eb = e
        if type(ea) is not type(eb):
            return f"{op} on {before}: builtin {ea!r}, evented {eb!r}"
        if k in ("get", "copy", "add") and ea is None and (k != "get" or isinstance(op[1], list)):
            if type(rb) is not EventedList:
                return f"{op}: result is {type(rb).__name__}"
            if rb is b:
                return f"{op}: result is the list itself"
            rb = rb._data
        if ea is None:
            ok = ident(ra, rb) if isinstance(ra, list) and k not in ("pop",) and not (k == "get" and not isinstance(op[1], list)) else (ra is rb or ra == rb)
            if not ok:
                return f"{op} on {before}: result {rb!r}, builtin {ra!r}"
        if not ident(a, b._data):
            return f"{op} on {before}: contents {b._data}, builtin {a}"
        if errs:
            return f"{op} on {before}: {errs[0]}; events {evs}"
        if pend:
            return f"{op} on {before}: {pend} not followed by its after-event; events {evs}"
        if not ident(mirror, a):
            return f"{op} on {before}: events {evs} replay to {mirror}, contents {a}"
        if ea is not None and ident(before, a) and evs and not (k == "clear"):
            return f"{op} on {before}: failed with {ea!r} but emitted {evs}"
        if any(e[0] in ("moving", "moved") for e in evs):
            return f"{op}: {evs}"
        if k != "reverse" and any(e[0] == "reordered" for e in evs):
            return f"{op}: {evs}"
        # exact number of events
        if ea is None and k in ("append", "insert", "extend", "iadd"):
            if [e[0] for e in evs] != ["inserting", "inserted"] * (len(a) - len(before)):
                return f"{op}: {evs}"
        if ea is None and k in ("pop", "remove", "clear", "del"):
            if [e[0] for e in evs] != ["removing", "removed"] * (len(before) - len(a)):
                return f"{op}: {evs}"
        if child:
            for kid in kids:
                n = sum(1 for x in a if x is kid)
                for s in (kid.sig, kid.other):
                    if len(s) != n:
                        return f"{op} on {before}: {kid} is in the list {n} times, {len(s)} connections"
                del ch[:]
                kid.sig.emit(3)
                if bool(ch) != bool(n):
                    return f"{op}: child_event {ch}"
                for c in ch:
                    if c[0] != a.index(kid) or c[1] is not kid or c[2] is not kid.sig or c[3] != (3,):
                        return f"{op}: child_event {c}"
        elif any(len(kid.sig) for kid in kids):
            return f"{op}: children connected without child_events"
    return None


IDX = [-4, -2, -1, 0, 1, 2, 4]


def single_ops():
    slices = [[None, None, None], [0, 2, None], [1, None, None], [None, None, 2], [None, None, -1], [2, 0, -1], [-2, None, None], [5, 9, None], [2, 1, None], [None, None, -2]]
    for i in IDX:
        yield ["insert", i, 9]
        yield ["pop", i]
        yield ["set", i, 9]
        yield ["set", i, 1]
        yield ["del", i]
        yield ["get", i]
    for s in slices:
        for v in ([], [7], [7, 8], [7, 8, 9]):
            yield ["setsl", s, v, 0]
        yield ["setsl", s, [7], 1]
        yield ["setsl", s, [], 3]
        yield ["setsl", s, [1], 4]
        yield ["setsl", s, [1], 5]
        yield ["del", s]
        yield ["get", s]
    for o in (["append", 1], ["append", "n0"], ["append", "N"], ["extend", [1, 2], 0], ["extend", [1], 1], ["extend", [1, 2], 2], ["extend", [], 3], ["extend", [1, 2], 4],
              ["iadd", [1, 2], 0], ["iadd", [], 3], ["iadd", [], 5], ["iadd", [3], 1], ["pop"], ["remove", 1], ["remove", 77], ["remove", "N"], ["clear"], ["delbad"],
              ["getbad"], ["reverse", 0], ["reverse", 1], ["index", 1], ["index", 1, 1], ["index", 1, -2, 2], ["count", 1], ["contains", 1], ["contains", "N"], ["iter"],
              ["reversed"], ["len"], ["copy", 0], ["copy", 1], ["add", [1, 2]], ["radd", [1]], ["eq", [1, 2]], ["append", "k0"], ["set", 0, "k1"], ["insert", 0, "k0"]):
        yield o


def exhaustive(tier):
    s = list(single_ops())
    for init in ([], [1], [1, 2], [1, 1, 2], ["n0", "N", 1], ["k0", "k1", "k0"]):
        for o in s:
            yield {"init": init, "ops": [o], "child": True}
            yield {"init": init, "ops": [o]}
    for x, y in itertools.product(s[::5], s[::3]):
        yield {"init": [1, 2, "k0"], "ops": [x, y], "child": True}


def random_scenario(rng):
    def it():
        return rng.choice([1, 2, 3, "n0", "n1", "N", "k0", "k1", "k2", "k3", 1000])

    def its(n=4):
        return [it() for _ in range(rng.randint(0, n))]

    def ix():
        return rng.randint(-9, 9)

    def s():
        def m():
            return rng.choice([None, ix()])
        return [m(), m(), rng.choice([None, None, 1, 2, -1, -2, 3])]

    def op():
        return rng.choice([
            lambda: ["append", it()], lambda: ["insert", ix(), it()], lambda: ["extend", its(), rng.choice([0, 1, 2, 3, 4])],
            lambda: ["iadd", its(), rng.choice([0, 1, 3])], lambda: ["pop"] + ([ix()] if rng.random() < .7 else []), lambda: ["remove", it()],
            lambda: ["clear"] if rng.random() < .2 else ["len"], lambda: ["set", ix(), it()], lambda: ["setsl", s(), its(), rng.choice([0, 0, 0, 1, 3, 4])], lambda: ["del", ix()], lambda: ["del", s()],
            lambda: ["get", ix()], lambda: ["get", s()], lambda: ["reverse", rng.randint(0, 1)], lambda: ["index", it()] + [ix() for _ in range(rng.randint(0, 2))],
            lambda: ["count", it()], lambda: ["contains", it()], lambda: ["copy", rng.randint(0, 1)], lambda: ["add", its()], lambda: ["radd", its()], lambda: ["reversed"]])()
    return {"init": its(8), "ops": [op() for _ in range(rng.randint(1, 10))], "child": rng.random() < 0.5}
