"""C14 scenarios: move, move_multiple and reverse on lists of distinct items against the specified permutation; events replayed."""
import itertools

from psygnal.containers import EventedList

BOUND = ("exhaustive: move with all src/dest in -n-1..n+1 for n<=6; move_multiple with all ordered selections for n<=4 (n=5 thorough) and all dests; "
         "random: n<=9 with slices, negatives, repetitions, wrong types")


class It:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"i{self.n}"

    def __eq__(self, o):
        return isinstance(o, It)        # all equal: identity must decide

    __hash__ = None


def sl(k):
    return slice(*k) if isinstance(k, list) else k


def run(sc):
    n = sc["n"]
    a = [It(i) for i in range(n)] if sc.get("eqitems") else [object() for _ in range(n)]
    b = EventedList(a)
    evs, errs, mirror, pend = [], [], list(a), []

    def same():
        return len(mirror) == len(b._data) and all(x is y for x, y in zip(mirror, b._data))

    def moving(s, d):
        evs.append("moving")
        if not same():
            errs.append(f"moving({s},{d}) not before the change")
        pend.append((s, d))

    def moved(s, d, v):
        evs.append("moved")
        if not pend:
            errs.append("moved without moving")
            return
        s0, d0 = pend.pop()
        if not (0 <= s < len(mirror)) or not (0 <= d < len(mirror)):
            errs.append(f"moved({s},{d}): not the actual indices")
            return
        if s0 != s or d0 not in (d, d + 1):
            errs.append(f"moving({s0},{d0}) then moved({s},{d})")
        if mirror[s] is not v:
            errs.append(f"moved({s},{d}): item is not the one at {s}")
        x = mirror.pop(s)
        mirror.insert(d, x)
        if not same():
            errs.append(f"moved({s},{d}): replay differs from the contents")

    b.events.moving.connect(moving)
    b.events.moved.connect(moved)
    b.events.reordered.connect(lambda: evs.append("reordered"))
    for nm in ("inserting", "inserted", "removing", "removed", "changed"):
        b.events[nm].connect(lambda *x, nm=nm: evs.append(nm))
    rev_changed = False
    for op in sc["ops"]:
        del evs[:], pend[:]
        before = list(b._data)
        mirror[:] = before
        k = op[0]
        exp, wexc, wret = None, None, None

        def to_dest(d):
            return d + n + 1 if d < 0 else d
        if k == "move":
            s, d = op[1], op[2]
            if not -n <= s < n:
                wexc = IndexError
            else:
                s2, d2 = s + n if s < 0 else s, min(max(to_dest(d), 0), n)
                it = before[s2]
                if d2 in (s2, s2 + 1):
                    exp, wret = before, False
                else:
                    exp = [x for x in before[:d2] if x is not it] + [it] + [x for x in before[d2:] if x is not it]
                    wret = True
        elif k == "mm":
            srcs, d = op[1], op[2]
            idx = []
            for s in srcs:
                if isinstance(s, list):
                    idx.extend(range(*slice(*s).indices(n)))
                elif isinstance(s, int):
                    if not -n <= s < n:
                        wexc = IndexError
                        break
                    idx.append(s + n if s < 0 else s)
                else:
                    wexc = TypeError
                    break
            if isinstance(d, list):
                wexc = TypeError
            if wexc is None:
                idx = list(dict.fromkeys(idx))
                d2 = min(max(to_dest(d), 0), n)
                its = [before[i] for i in idx]
                inn = lambda x: any(x is y for y in its)   # noqa: E731
                exp = [x for x in before[:d2] if not inn(x)] + its + [x for x in before[d2:] if not inn(x)]
        elif k == "rev":
            exp = before[::-1]
            rev_changed = bool(op[1])
        exc = ret = None
        try:
            if k == "move":
                ret = b.move(op[1], op[2])
            elif k == "mm":
                ret = b.move_multiple([sl(s) for s in op[1]], sl(op[2]))
            else:
                b.reverse(emit_individual_events=bool(op[1]))
        except Exception as e:
            exc = e
        if (type(exc) if exc else None) is not wexc:
            return f"{op} on {n} items: raised {exc!r}, expected {wexc}"
        if wexc is not None:
            if evs or not all(x is y for x, y in zip(before, b._data)) or len(b) != n:
                return f"{op}: failed but emitted {evs} / changed the list"
            continue
        got = b._data
        if len(got) != n or not all(x is y for x, y in zip(got, exp)):
            pos = {id(x): i for i, x in enumerate(before)}
            return f"{op} on {n} items: order {[pos.get(id(x)) for x in got]}, expected {[pos[id(x)] for x in exp]}"
        if errs:
            return f"{op}: {errs[0]}"
        if k == "move":
            if ret is not wret or evs != (["moving", "moved", "reordered"] if wret else []):
                return f"{op} on {n} items: returned {ret}, events {evs}"
        elif k == "mm":
            body = evs[:-1]
            if not evs or evs[-1] != "reordered" or body != ["moving", "moved"] * (len(body) // 2):
                return f"{op}: events {evs}"
            if not same() or len(body) > 2 * len(op[1]) * n:
                return f"{op}: events do not replay to the contents"
        else:
            want = ["reordered"] if not op[1] else ["changed"] * (2 * (n // 2)) + ["reordered"]
            if evs != want:
                return f"{op}: events {evs}"
    return None


def exhaustive(tier):
    for n in range(0, 7):
        for s in range(-n - 1, n + 2):
            for d in range(-n - 1, n + 2):
                yield {"n": n, "ops": [["move", s, d]]}
        for e in (0, 1):
            yield {"n": n, "ops": [["rev", e]]}
    for n in range(0, 6 if tier == "thorough" else 5):
        for k in range(0, n + 1):
            for srcs in itertools.permutations(range(n), k):
                for d in range(-n - 1, n + 1):
                    yield {"n": n, "ops": [["mm", list(srcs), d]]}
    for s in ([None, None, 2], [1, 3, None], [None, None, -1]):
        for d in range(-5, 5):
            yield {"n": 4, "ops": [["mm", [s], d]]}
            yield {"n": 4, "ops": [["mm", [3, s], d]]}
    yield {"n": 3, "ops": [["mm", ["x"], 0]]}
    yield {"n": 3, "ops": [["mm", [0], [0, 1, None]]]}


def random_scenario(rng):
    n = rng.randint(0, 9)

    def src():
        if rng.random() < 0.15:
            return [rng.choice([None, rng.randint(-9, 9)]), rng.choice([None, rng.randint(-9, 9)]), rng.choice([None, 1, 2, -1, -2])]
        return rng.randint(-n, max(n - 1, 0)) if rng.random() < 0.97 else rng.choice([n, -n - 1, "x"])

    def op():
        k = rng.random()
        if k < 0.4:
            return ["move", rng.randint(-n - 1, n), rng.randint(-n - 1, n + 1)]
        if k < 0.9:
            return ["mm", [src() for _ in range(rng.randint(0, n + 1))], rng.randint(-n - 1, n)]
        return ["rev", rng.randint(0, 1)]
    return {"n": n, "ops": [op() for _ in range(rng.randint(1, 5))], "eqitems": rng.random() < 0.2}
