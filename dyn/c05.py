"""C05 scenarios: callbacks that re-emit according to a table (slot, value) -> values; the oracle is
an executable model of the three modes."""
import itertools

from psygnal import SignalInstance

BOUND = "exhaustive: 1..3 slots, one/two re-emitting table entries over values 0..3; random: tables of <=5 entries, 1..4 slots, several outer emissions; both also with no, equal, identical and two arguments, re-emitting by call count, directly and through another signal"


def model(mode, n, table, emits):
    log = []

    class M:
        queue = []

    if mode == "immediate":
        def emit(v):
            for s in range(n):
                log.append((s, v))
                for w in table.get((s, v), ()):
                    emit(w)
        for v in emits:
            emit(v)
    elif mode == "queued":
        for v in emits:
            q = [v]
            i = 0
            while i < len(q):
                for s in range(n):
                    log.append((s, q[i]))
                    q += table.get((s, q[i]), ())
                i += 1
    else:
        def emit(v):
            """True if delivered in full"""
            for s in range(n):
                log.append((s, v))
                for w in table.get((s, v), ()):
                    emit(w)
                if table.get((s, v), ()):
                    return
        for v in emits:
            emit(v)
    return log


def model_calls(mode, n, table, emits):
    """like model(), the table telling what the k-th call of a slot emits (so that equal values are emitted again, too)"""
    log, calls = [], [0] * n

    def call(s, v):
        log.append((s, v))
        calls[s] += 1
        return table.get((s, calls[s]), ())
    if mode == "queued":
        for v in emits:
            q, i = [v], 0
            while i < len(q):
                for s in range(n):
                    q += call(s, q[i])
                i += 1
    else:
        def emit(v):
            for s in range(n):
                ws = call(s, v)
                for w in ws:
                    emit(w)
                if ws and mode == "latest-only":
                    return
        for v in emits:
            emit(v)
    return log


OBJECTS = {"int": lambda v: (v,), "none": lambda v: (), "same": lambda v: (SAME,), "list": lambda v: ([v % 2],), "two": lambda v: (v, v)}
SAME = object()


def run_calls(sc):
    mode, n, kind = sc["mode"], sc["n"], OBJECTS[sc["kind"]]
    table = {(s, k): tuple(w) for s, k, w in sc["table"]}
    log, calls = [], [0] * n
    sig = SignalInstance((object,) * len(kind(0)), reemission=mode)
    other = SignalInstance((tuple,))
    other.connect(lambda a: sig.emit(*a))

    def mk(s):
        def f(*a):
            log.append((s, a))
            calls[s] += 1
            for w in table.get((s, calls[s]), ()):
                (other.emit(kind(w)) if sc.get("via") else sig.emit(*kind(w)))
        return f
    cbs = [mk(s) for s in range(n)]
    for c in cbs:
        sig.connect(c, check_nargs=False)
    for v in sc["emits"]:
        sig.emit(*kind(v))
    want = [(s, kind(v)) for s, v in model_calls(mode, n, table, sc["emits"])]
    if log != want:
        return f"mode {mode}, {n} slots, arguments {sc['kind']}, the k-th call of a slot emitting {sc['table']}, emits {sc['emits']}: calls {log}, expected {want}"
    if len(sig._emit_queue) or sig._recursion_depth:
        return "signal not idle afterwards"
    return None


def run(sc):
    if "kind" in sc:
        return run_calls(sc)
    mode, n = sc["mode"], sc["n"]
    table = {(s, v): tuple(w) for s, v, w in sc["table"]}
    log = []
    sig = SignalInstance((int,), reemission=mode)

    def mk(s):
        def f(v):
            log.append((s, v))
            for w in table.get((s, v), ()):
                sig.emit(w)
        return f
    cbs = [mk(s) for s in range(n)]
    for c in cbs:
        sig.connect(c)
    for rep in range(2):
        del log[:]
        for v in sc["emits"]:
            sig.emit(v)
        want = model(mode, n, table, sc["emits"])
        if log != want:
            return f"mode {mode}, {n} slots, table {sc['table']}, emits {sc['emits']}: calls {log}, expected {want}"
    if len(sig._emit_queue) or sig._recursion_depth:
        return "signal not idle afterwards"
    return None


def exhaustive(tier):
    for mode in ("immediate", "queued", "latest-only"):
        for kind in OBJECTS:
            for n in (1, 2, 3):
                for slot in range(n):
                    for ws in ([1], [0, 0], [1, 1, 0]):
                        for nxt in ((), ((slot, 2, [1]),), ((n - 1, 2, [0, 0]), (0, 3, [1]))):
                            yield dict(kind=kind, mode=mode, n=n, table=[[slot, 1, ws], *map(list, nxt)], emits=[0, 0], via=slot == 1)
    for mode in ("immediate", "queued", "latest-only"):
        for n in (1, 2, 3):
            entries = [(s, v, w) for s in range(n) for v in (0, 1, 2) for w in ([v + 1], [v + 1, v + 2], [3])]
            for e in entries:
                yield dict(mode=mode, n=n, table=[list(e)], emits=[0, 2])
            for e1, e2 in itertools.combinations(entries, 2):
                if (e1[0], e1[1]) != (e2[0], e2[1]):
                    yield dict(mode=mode, n=n, table=[list(e1), list(e2)], emits=[0])


def random_scenario(rng):
    if rng.random() < 0.5:
        n = rng.randint(1, 4)
        tab = {(rng.randrange(n), rng.randint(1, 5)): [rng.randint(0, 2) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 5))}
        return dict(kind=rng.choice(list(OBJECTS)), mode=rng.choice(["immediate", "queued", "latest-only"]), n=n, via=rng.random() < 0.3,
                    table=[[s, k, w] for (s, k), w in tab.items()], emits=[rng.randint(0, 2) for _ in range(rng.randint(1, 3))])
    n = rng.randint(1, 4)
    tab = {}
    for _ in range(rng.randint(1, 5)):
        v = rng.randint(0, 4)
        tab[(rng.randrange(n), v)] = [rng.randint(v + 1, 6) for _ in range(rng.randint(1, 2))]
    return dict(mode=rng.choice(["immediate", "queued", "latest-only"]), n=n, table=[[s, v, w] for (s, v), w in tab.items()],
                emits=[rng.randint(0, 4) for _ in range(rng.randint(1, 3))])
