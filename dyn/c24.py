"""C24 scenarios: 2-3 threads emitting, connecting and disconnecting on one signal under a cooperative scheduler that may switch at every line of
psygnal code (locks are replaced by scheduler-aware re-entrant ones, so a missing or misplaced lock shows as an interleaving); delivery lists,
non-interleaving, the final connections and deadlocks are checked."""
import itertools
import os
import random
import sys
import threading

import psygnal
import psygnal._signal as S
from psygnal import SignalInstance

BOUND = "random schedules (line-level preemption) over 2-3 threads x <=4 operations x 3 modes; exhaustive: every single preemption point for 18 thread pairs"
ROOT = os.path.dirname(psygnal.__file__)
REAL_RLOCK = threading.RLock
REAL_LOCK = threading.Lock


class Deadlock(BaseException):
    pass


class Sched:
    """one thread runs at a time; `choose(runnable, current)` decides at every line"""

    def __init__(self, choose):
        self.choose = choose
        self.cv = threading.Condition(REAL_LOCK())
        self.current = None
        self.state = {}          # tid -> "run" | lock | "done"
        self.dead = False
        self.steps = 0

    def runnable(self):
        return [t for t, s in self.state.items() if s == "run" or (s != "done" and s.free_for(t))]

    def switch(self, tid):
        """called by the running thread: pick who goes on; returns when tid is chosen again"""
        self.steps += 1
        if self.steps > 20000:
            self.dead = True
        r = self.runnable()
        if not r:
            if any(s != "done" for s in self.state.values()):
                self.dead = True
            with self.cv:
                self.cv.notify_all()
            if self.dead and self.state.get(tid) != "done":
                raise Deadlock
            return
        nxt = self.choose(r, tid)
        with self.cv:
            self.current = nxt
            self.cv.notify_all()
            if self.state[tid] == "done":
                return
            while self.current != tid and not self.dead:
                if not self.cv.wait(10):
                    self.dead = True
        if self.dead:
            raise Deadlock

    def wait_turn(self, tid):
        with self.cv:
            while self.current != tid and not self.dead:
                if not self.cv.wait(10):
                    self.dead = True


class CoopRLock:
    reentrant = True

    def __init__(self, sched):
        self.s = sched
        self.owner = None
        self.n = 0

    def free_for(self, tid):
        return self.owner is None or (self.owner == tid and self.reentrant)

    def acquire(self, blocking=True, timeout=-1):
        tid = getattr(TL, "tid", None)
        if tid is None:
            return True
        while not self.free_for(tid):
            if not blocking:
                return False
            self.s.state[tid] = self
            self.s.switch(tid)
        self.s.state[tid] = "run"
        self.owner = tid
        self.n += 1
        return True

    def release(self):
        if getattr(TL, "tid", None) is None:
            return
        self.n -= 1
        if self.n == 0:
            self.owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CoopLock(CoopRLock):
    reentrant = False


TL = threading.local()


def run(sc):
    rng = random.Random(sc["seed"])
    pts = list(sc.get("points", []))
    cnt = [0]

    def choose(r, cur):
        cnt[0] += 1
        if sc.get("points") is not None:
            if cur in r and cnt[0] not in pts:
                return cur
            others = [t for t in r if t != cur]
            return others[0] if others else cur
        if cur in r and rng.random() > sc["p"]:
            return cur
        return rng.choice(r)

    sched = Sched(choose)
    saved = {k: getattr(S, k) for k in ("RLock", "Lock") if hasattr(S, k)}
    threading.RLock = lambda: CoopRLock(sched)
    threading.Lock = lambda: CoopLock(sched)
    for k in saved:
        setattr(S, k, getattr(threading, k))
    try:
        sig = SignalInstance((int,), reemission=sc["mode"], name="s")
    finally:
        threading.RLock = REAL_RLOCK
        threading.Lock = REAL_LOCK
        for k, v in saved.items():
            setattr(S, k, v)
    log = []
    cbs = {}
    clock = itertools.count()
    emits, cons = [], {}
    extra = []

    class Tgt:
        attr = 0

        def __init__(self, name):
            object.__setattr__(self, "name", name)

        def __setattr__(self, k, v):
            log.append((self.name, v, getattr(TL, "tid", None)))

        def __setitem__(self, k, v):
            log.append((self.name, v, getattr(TL, "tid", None)))

    def connect(name, **kw):
        if name[0] == "a":
            sig.connect_setattr(cbs[name], "attr", **kw)
        elif name[0] == "i":
            sig.connect_setitem(cbs[name], "key", **kw)
        else:
            sig.connect(cbs[name], **kw)

    def disconnect(name):
        if name[0] == "a":
            sig.disconnect_setattr(cbs[name], "attr", missing_ok=False)
        elif name[0] == "i":
            sig.disconnect_setitem(cbs[name], "key", missing_ok=False)
        else:
            sig.disconnect(cbs[name], missing_ok=False)

    def mk(name):
        if name[0] in "ai":
            cbs[name] = Tgt(name)
            return cbs[name]
        def cb(v):
            log.append((name, v, getattr(TL, "tid", None)))
            if name == "re_emit" and v < 1000:
                sig.emit(v + 1000)
            elif name == "re_con":
                def tmp(x):
                    log.append(("tmp", x, getattr(TL, "tid", None)))
                extra.append(tmp)
                sig.connect(tmp)
            elif name == "re_dis" and extra:
                sig.disconnect(extra.pop(0))
        cbs[name] = cb
        return cb

    uniq = set()
    for n in sc["pre"]:
        sig.connect(mk(n))
    for th in sc["threads"]:
        for op in th:
            if op[0] == "ucon":
                uniq.add(op[1])
                if op[1] not in cbs:
                    mk(op[1])
            if op[0] == "con":
                mk(op[1])
            if op[0] == "dis" and op[1] not in cbs:
                mk(op[1])
                connect(op[1])
                cons[op[1]] = [-2, -1, None, None]
    errors = []
    limit = getattr(S, "RECURSION_LIMIT", None)
    if "limit" in sc:
        S.RECURSION_LIMIT = sc["limit"]

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if event == "line":
            sched.switch(TL.tid)
        return tracer

    def body(tid, ops):
        TL.tid = tid
        sched.wait_turn(tid)
        if sched.dead:
            return
        sys.settrace(tracer)
        try:
            for op in ops:
                t0 = next(clock)
                if op[0] == "emit":
                    e = [op[1], t0, None]
                    emits.append(e)
                    sig.emit(op[1])
                    e[2] = next(clock)
                elif op[0] == "con":
                    c = cons.setdefault(op[1], [t0, None, None, None])
                    connect(op[1], **({"priority": op[2]} if len(op) > 2 else {}))
                    c[1] = next(clock)
                elif op[0] == "ucon":
                    sig.connect(cbs[op[1]], unique=True)
                elif op[0] == "dis":
                    cons[op[1]][2] = t0
                    disconnect(op[1])
                    cons[op[1]][3] = next(clock)
        except Deadlock:
            errors.append("deadlock")
        except BaseException as e:
            errors.append(f"thread {tid}: {e!r}")
        finally:
            sys.settrace(None)
            sched.state[tid] = "done"
            try:
                sched.switch(tid)
            except Deadlock:
                pass

    ths = [threading.Thread(target=body, args=(i, ops), daemon=True) for i, ops in enumerate(sc["threads"])]
    for i in range(len(ths)):
        sched.state[i] = "run"
    for t in ths:
        t.start()
    with sched.cv:
        sched.current = 0
        sched.cv.notify_all()
    for t in ths:
        t.join(15)
    S.RECURSION_LIMIT = limit
    for t in ths:
        if t.is_alive():
            return "deadlock: a thread does not end"
    if errors:
        return errors[0]
    # no interleaving of different threads' emissions: in the log the thread changes only between complete emissions
    per = {}
    order = []
    for n, v, t in log:
        base = v % 1000
        if not order or order[-1] != base:
            order.append(base)
        per.setdefault(base, []).append((n, v))
    if len(order) != len(set(order)):
        return f"deliveries interleave: {log}"
    nested = "re_emit" in sc["pre"]
    for v, t0, t1 in emits:
        mine = [n for n, w in per.get(v, []) if w == v]
        names = [n for n in mine if n != "tmp"]
        if len(names) != len(set(names)):
            return f"emission {v} calls a callback twice: {names}"
        if not (nested and sc["mode"] == "latest-only"):
            perm = [n for n in names if n in sc["pre"]]
            if perm != sc["pre"]:
                return f"emission {v} was delivered to {names}, permanent callbacks are {sc['pre']}"
            for n, (c0, c1, d0, d1) in cons.items():
                if c1 is not None and c1 < t0 and (d0 is None or d0 > t1) and n not in names:
                    return f"emission {v} missed {n}"
                if (d1 is not None and d1 < t0 or c0 > t1) and n in names:
                    return f"emission {v} called {n}, which is not connected"
    want = len(sc["pre"]) + sum(1 for c in cons.values() if c[2] is None) + len(extra) + len(uniq)
    if len(sig) != want:
        return f"{len(sig)} connections at the end, expected {want}"
    for n, c in cons.items():
        if n[0] not in 'ai' and (cbs[n] in sig) != (c[2] is None):
            return f"{n} connected: {cbs[n] in sig}"
    if sig._emit_queue or sig._recursion_depth:
        return "emission state left over"
    return None


THREADS = [
    ([["emit", 1]], [["emit", 2]]),
    ([["emit", 1]], [["con", "x"]]),
    ([["emit", 1]], [["dis", "x"]]),
    ([["con", "x"]], [["con", "y"]]),
    ([["con", "x", 3]], [["con", "y", -1]]),
    ([["dis", "x"]], [["dis", "y"]]),
    ([["con", "x"], ["dis", "x"]], [["con", "y"], ["emit", 2]]),
    ([["dis", "x"]], [["con", "y", 2]]),
    ([["con", "a1"]], [["con", "i1"]]),
    ([["con", "a1", 3]], [["con", "x"]]),
    ([["con", "i1"]], [["dis", "x"]]),
    ([["dis", "a1"]], [["con", "y"]]),
    ([["dis", "i1"]], [["dis", "a2"]]),
    ([["dis", "x"]], [["con", "a2", 1]]),
    ([["emit", 1]], [["dis", "i2"]]),
    ([["emit", 1], ["emit", 3]], [["emit", 2], ["con", "x"]]),
    ([["ucon", "u"]], [["ucon", "u"]]),
    ([["ucon", "u"], ["emit", 1]], [["ucon", "u"], ["emit", 2]]),
]
MODES = ["immediate", "queued", "latest-only"]


def exhaustive(tier):
    for k in range(1, 110):
        for i, (a, b) in enumerate(THREADS):
            if k >= 60 and a[0][0] != "ucon" and tier == "quick":
                continue
            yield {"threads": [a, b], "mode": MODES[(k + i) % 3], "pre": ["p", "q"], "seed": 0, "points": [k]}
    for k in range(1, 60):
        yield {"threads": [[["emit", 1]], [["emit", 2]]], "mode": "immediate", "pre": ["re_emit", "q"], "seed": 0, "points": [k], "limit": 2}
    for i, (a, b) in enumerate(THREADS):
        for m in MODES:
            for pre in (["re_emit", "q"], ["q", "re_con"], ["re_con", "re_dis", "q"]):
                for k in (5, 12, 20, 31, 44, 58):
                    yield {"threads": [a, b], "mode": m, "pre": pre, "seed": 0, "points": [k, k + 9]}


def random_scenario(rng: random.Random):
    nt = rng.choice([2, 2, 3])
    v, c, ths = 1, 0, []
    for _ in range(nt):
        ops, mine = [], []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(["emit", "emit", "con", "dis"])
            if k == "emit":
                ops.append(["emit", v])
                v += 1
            elif k == "con":
                mine.append(rng.choice("ccai") + str(c))
                ops.append(["con", mine[-1]] + ([rng.choice([1, -1, 5])] if rng.random() < 0.4 else []))
                c += 1
            else:
                n = mine.pop() if mine and rng.random() < 0.6 else rng.choice("ddai") + str(c)
                c += 1
                ops.append(["dis", n])
        ths.append(ops)
    return {"threads": ths, "mode": rng.choice(MODES), "pre": rng.choice([["p", "q"], ["p", "re_emit", "q"], ["q", "re_con", "re_dis"], ["p"]]),
            "seed": rng.randrange(10**6), "p": rng.choice([0.05, 0.15, 0.4])}


KNOWN = {}
