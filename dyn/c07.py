"""C07 scenarios: histories of emit/block/pause/resume and nested contexts against a state model."""
import itertools

from psygnal import EmitLoopError, SignalInstance

BOUND = "exhaustive: all histories of <=4 operations from 12; random: <=25 operations with nested contexts, raising callbacks"


class Boom(Exception):
    pass


def run(sc):
    log = []
    sig = SignalInstance((int,), reemission=sc.get("mode", "queued"))
    st = {"blocked": False, "paused": False, "held": [], "raise_on": None, "reemit": False}

    def cb(*a):
        log.append(a)
        if st["raise_on"] is not None and a[0] == st["raise_on"]:
            raise Boom
        if st["reemit"] and a[0] < 5:
            sig.emit(50 + a[0])
    nocb = sc.get("nocb")
    if not nocb:
        sig.connect(cb, check_nargs=False)
    want = []
    counter = [0]

    def deliver(a):
        """model; returns True if raises"""
        if nocb:
            return False
        want.append(a)
        return st["raise_on"] is not None and a[0] == st["raise_on"]

    def resume(red=None, init=None):
        st["paused"] = False
        held, st["held"] = st["held"], []
        if not held:
            return False
        if nocb:
            return False
        if red is not None:
            r = held[0] if init is None else init
            for h in (held[1:] if init is None else held):
                r = max(r, h) if red == "max" else (r[0] + h[0],)
            return deliver(r)
        for h in held:
            if deliver(h):
                return True
        return False

    redf = lambda a, b: (a[0] + b[0],)   # noqa: E731
    red1 = lambda its: (sum(i[0] for i in its),)   # noqa: E731

    def do(ops):
        for op in ops:
            k = op[0]
            exc = None
            wraised = False
            if k in ("e", "ef", "call"):
                v = op[1]
                if st["blocked"]:
                    pass
                elif st["paused"]:
                    st["held"].append((v,))
                else:
                    wraised = deliver((v,))
                try:
                    {"e": sig.emit, "ef": sig.emit_fast, "call": sig}[k](v)
                except EmitLoopError as e:
                    exc = e
            elif k == "b":
                sig.block(); st["blocked"] = True
            elif k == "ub":
                sig.unblock(); st["blocked"] = False
            elif k == "p":
                sig.pause(); st["paused"] = True
            elif k == "r":
                kind = op[1]
                try:
                    if kind == 0:
                        sig.resume()
                    elif kind == 1:
                        sig.resume(redf)
                    elif kind == 2:
                        sig.resume(redf, (100,))
                    elif kind == 3:
                        sig.resume(red1)
                    else:
                        sig.resume(max)   # a builtin that has no signature
                except EmitLoopError as e:
                    exc = e
                # resume delivers regardless of blocking (as documented by the model below)
                wraised = resume(None if kind == 0 else "max" if kind == 4 else True, (100,) if kind == 2 else None)
            elif k == "raise":
                st["raise_on"] = op[1]
            elif k in ("wb", "wp"):
                was = st["blocked"], st["paused"]
                left = None
                try:
                    with (sig.blocked() if k == "wb" else sig.paused(*((redf,) if op[2] == 1 else (red1,) if op[2] == 3 else ()))):
                        st["blocked" if k == "wb" else "paused"] = True
                        if sig._is_blocked != st["blocked"] or sig._is_paused != st["paused"]:
                            return f"{op}: state inside context"
                        m = do(op[1])
                        if m:
                            return m
                        if op[3]:
                            left = KeyError("x")
                            raise left
                except KeyError as e:
                    if e is not left:
                        return "exception replaced"
                except EmitLoopError as e:
                    exc = e
                if k == "wb":
                    if not was[0]:
                        st["blocked"] = False
                elif not was[1]:
                    wraised = resume(True if op[2] else None)
            if wraised != (exc is not None):
                return f"{op}: EmitLoopError {'missing' if wraised else 'unexpected: %r' % exc}"
            if log != want:
                return f"after {op}: delivered {log}, expected {want}"
            if sig._is_blocked != st["blocked"] or sig._is_paused != st["paused"]:
                return f"after {op}: blocked={sig._is_blocked} paused={sig._is_paused}, expected {st['blocked']}, {st['paused']}"
            if [tuple(x) for x in sig._args_queue] != st["held"] :
                return f"after {op}: held {sig._args_queue}, expected {st['held']}"
        return None
    return do(sc["ops"])


def exhaustive(tier):
    alpha = [["e", 1], ["e", 2], ["ef", 3], ["b"], ["ub"], ["p"], ["r", 0], ["r", 1], ["r", 2], ["r", 3], ["r", 4], ["raise", 1],
             ["wb", [["e", 4]], 0, 0], ["wp", [["e", 5], ["e", 6]], 0, 0], ["wp", [["e", 1], ["ef", 8]], 1, 1], ["wp", [["wb", [["e", 9]], 0, 1], ["e", 7]], 0, 0]]
    for r in (1, 2, 3, 4):
        for ops in itertools.product(alpha, repeat=r):
            yield {"ops": list(ops)}


def random_scenario(rng):
    def ops(n, d):
        out = []
        for _ in range(n):
            k = rng.random()
            if k < 0.4:
                out.append([rng.choice(["e", "ef", "call"]), rng.randint(0, 9)])
            elif k < 0.5:
                out.append(["b"])
            elif k < 0.58:
                out.append(["ub"])
            elif k < 0.68:
                out.append(["p"])
            elif k < 0.78:
                out.append(["r", rng.randint(0, 4)])
            elif k < 0.82:
                out.append(["raise", rng.choice([None, rng.randint(0, 9)])])
            elif d < 3:
                out.append([rng.choice(["wb", "wp"]), ops(rng.randint(0, 4), d + 1), rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 1])])
        return out
    return {"ops": ops(rng.randint(1, 14), 0), "mode": rng.choice(["queued", "immediate", "latest-only"]), "nocb": rng.random() < 0.1}
