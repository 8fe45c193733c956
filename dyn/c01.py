"""C01 scenarios: histories of connects/disconnects/emissions on one signal; the oracle keeps the
list of connections sorted by priority (stable) and expects each emission to call exactly them."""
import itertools

from psygnal import Signal, SignalInstance

BOUND = "exhaustive: <=3 callbacks, priorities {-1,0,1}, all connect orders, all 3 modes; random: <=25 operations"


def make(n, log):
    def mk(i):
        def f(*a):
            log.append((i, a))
        return f
    return [mk(i) for i in range(n)]


class Owner:
    def __init__(self, log):
        self.log = log

    def m0(self, *a):
        self.log.append(("m0", a))

    def m1(self, *a):
        self.log.append(("m1", a))


def run(sc):
    log = []
    cbs = make(6, log)
    own = Owner(log)
    names = {**{i: cbs[i] for i in range(6)}, "m0": own.m0, "m1": own.m1}
    sig = SignalInstance((int,), reemission=sc.get("mode", "queued"))
    conns = []          # (name, priority) in calling order
    for op in sc["ops"]:
        k = op[0]
        if k == "c":
            _, nm, pr = op
            sig.connect(names[nm], priority=pr)
            pos = len(conns)
            while pos > 0 and conns[pos - 1][1] < pr:
                pos -= 1
            conns.insert(pos, (nm, pr))
        elif k == "d":
            nm = op[1]
            sig.disconnect(names[nm])
            for i, (x, _) in enumerate(conns):
                if x == nm:
                    del conns[i]
                    break
        elif k == "D":
            sig.disconnect()
            conns = []
        elif k == "b":
            sig.block(); sig.emit(99); sig.unblock()
            if log:
                return f"blocked signal called {log}"
        elif k == "selfd":
            # the LAST callback in calling order disconnects itself while running: nobody follows it
            def f(*a):
                log.append(("self", a))
                sig.disconnect(f)
            sig.connect(f, priority=-1000)
            conns_now = conns + [("self", -1000)]
            sig.emit(5)
            want = [(n, (5,)) for n, _ in conns_now]
            if log != want:
                return f"{op}: called {log}, expected {want}"
            del log[:]
        elif k == "addl":
            # a callback connects a new lower-priority callback at the end; existing ones unaffected
            def g(*a):
                log.append(("late", a))
            def f(*a):
                log.append(("adder", a))
                sig.connect(g, priority=-2000)
                sig.disconnect(f) if op[1] else None
            sig.connect(f, priority=-1500)
            sig.emit(6)
            got = [x for x in log if x[0] != "late"]
            want = [(n, (6,)) for n, _ in conns] + [("adder", (6,))]
            if got != want:
                return f"{op}: called {got}, expected {want}"
            if sum(1 for x in log if x[0] == "late") > 1:
                return f"{op}: newly connected callback called more than once"
            sig.disconnect(f)
            sig.disconnect(g)
            del log[:]
        elif k == "e":
            sig.emit(op[1])
            want = [(n, (op[1],)) for n, _ in conns]
            if log != want:
                return f"emit({op[1]}): called {log}, expected {want}"
            del log[:]
        if len(sig) != len(conns):
            return f"after {op}: len {len(sig)} != {len(conns)}"
    return None


def exhaustive(tier):
    for mode in ("immediate", "queued", "latest-only"):
        for n in (1, 2, 3, 4):
            for prs in itertools.product((-1, 0, 1), repeat=n):
                yield {"mode": mode, "ops": [["c", i, p] for i, p in enumerate(prs)] + [["e", 1], ["e", 2]]}
                if n == 3:
                    for d in range(n):
                        yield {"mode": mode, "ops": [["c", i, p] for i, p in enumerate(prs)] + [["d", d], ["e", 1], ["c", d, 1], ["e", 2]]}


def random_scenario(rng):
    ops = []
    for _ in range(rng.randint(1, 25)):
        k = rng.random()
        nm = rng.choice([0, 1, 2, 3, 4, 5, "m0", "m1"])
        if k < 0.5:
            ops.append(["c", nm, rng.choice([0, 0, 0, 1, -1, 5, -7, 100])])
        elif k < 0.65:
            ops.append(["d", nm])
        elif k < 0.67:
            ops.append(["D"])
        elif k < 0.7:
            ops.append(["b"])
        elif k < 0.75:
            ops.append(["selfd"])
        elif k < 0.8:
            ops.append(["addl", rng.choice([0, 1])])
        else:
            ops.append(["e", rng.randint(0, 9)])
    ops.append(["e", 3])
    return {"mode": rng.choice(["immediate", "queued", "latest-only"]), "ops": ops}


def _f2a():
    log = []
    sig = SignalInstance((int,))

    def a(x):
        log.append("a")
        sig.disconnect(a)

    def b(x):
        log.append("b")
    sig.connect(a)
    sig.connect(b)
    sig.emit(1)
    return None if log == ["a", "b"] else f"self-disconnecting callback: called {log}, expected ['a', 'b']"


def _f2b():
    log = []
    sig = SignalInstance((int,))

    def a(x):
        log.append("a")
        if len(log) == 1:
            sig.connect(lambda x: log.append("new"), priority=5)
    sig.connect(a)
    sig.emit(1)
    return None if log.count("a") == 1 else f"callback connecting a higher-priority one is called {log.count('a')} times"


_run = run


def run(sc):  # noqa: F811
    if sc.get("known") == "F2a":
        return _f2a()
    if sc.get("known") == "F2b":
        return _f2b()
    return _run(sc)


KNOWN = {"F2a": {"known": "F2a"}, "F2b": {"known": "F2b"}}
