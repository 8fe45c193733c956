"""C12 scenarios: callbacks connected for several threads, emitted from several threads (each operation runs to completion on a real
thread of its own before the next one), queues emitted in any order, failing callbacks, queued callbacks that emit again."""
import functools
import itertools
import queue
import threading

from psygnal import EmitLoopError, SignalInstance, emit_queued

BOUND = "exhaustive: all histories of <=4 operations from 11 (3 threads, 3 callbacks); random: <=25 operations, concurrent producers; threads not started yet or ended (reused idents)"


class Worker:
    """A real thread executing one function at a time on request."""

    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put((None, f()))
            except BaseException as e:    # noqa: BLE001
                self.r.put((e, None))

    def do(self, f):
        self.q.put(f)
        return self.r.get(timeout=20)

    def close(self):
        self.q.put(None)
        self.t.join()


class Main:
    t = threading.main_thread()

    def do(self, f):
        try:
            return None, f()
        except BaseException as e:   # noqa: BLE001
            return e, None

    def close(self):
        pass


POOL = None


class Boom(Exception):
    pass


def run_life(sc):
    """threads that are not started yet, or have ended (their ident is reused by later threads), or share a name"""
    log = []
    sig = SignalInstance((int,))
    n = [0]

    def emit_on(t, v):
        u = threading.Thread(target=lambda: sig.emit(v), name=t.name)
        u.start()
        u.join()
    bodies = []
    target = threading.Thread(target=lambda: [b() for b in bodies], name="same name")
    sig.connect(lambda v: log.append((v, threading.current_thread() is target)), thread=target)
    want_q = []
    for op in sc["life"]:
        n[0] += 1
        if op == "main":
            sig.emit(n[0])
            want_q.append(n[0])
        elif op == "other":
            emit_on(target, n[0])
            want_q.append(n[0])
        elif op == "live":        # the thread starts, emits itself (direct call) and drains its queue
            del log[:]
            v = n[0]
            bodies[:] = [lambda: sig.emit(v), emit_queued]
            target.start()
            target.join()
            want = [(v, True)] + [(q, True) for q in want_q]
            if log != want:
                return f"on its own thread: calls (argument, on that thread) {log}, expected {want} ({sc})"
            want_q = []
            del log[:]
        if log:
            return f"{op}: called at once on another thread: {log} ({sc})"
    emit_queued(target)
    if log != [(q, False) for q in want_q]:
        return f"draining the queue of the thread: {log}, expected {want_q}"
    return None


def run(sc):
    global POOL
    if "life" in sc:
        return run_life(sc)
    if POOL is None:
        POOL = [Main(), Worker(), Worker()]
    ths = POOL
    tid = {w.t: i for i, w in enumerate(ths)}
    for w in ths:                  # drop leftovers of an earlier failing scenario
        from psygnal._queue import QueuedCallback
        q = QueuedCallback._GLOBAL_QUEUE[w.t]
        while not q.empty():
            q.get()
    log = []
    sig = SignalInstance((int, int))
    cfg = {"fail": None, "again": None}

    def body(i, *a):
        log.append((i, tid.get(threading.current_thread()), a))
        if cfg["again"] == (i, a):
            cfg["again"] = None
            sig.emit(90, 90)
        if cfg["fail"] is not None and a and cfg["fail"] == a[0]:
            raise Boom

    class O:
        def m(self, a):
            body(2, a)
    o = O()

    def cb0(a, b):
        body(0, a, b)

    def cb1(k, a):
        body(1, k, a)
    conns = []                     # (callback, thread, arg transform)
    queues = {i: [] for i in range(3)}
    want = []

    def deliver(i, a, th):
        """model: call of callback i on thread th; True if it raises"""
        args = {0: a, 1: ("k", a[0]), 2: a[:1]}[i]
        want.append((i, th, args))
        if cfg["again"] == (i, args):
            m_again[0] = True
            cfg["again"] = None
            if m_emit((90, 90), th):
                return True
        return cfg["fail"] is not None and cfg["fail"] == args[0]

    m_again = [False]

    def m_emit(a, th):
        for c, t in list(conns):
            if t is None or t == th:
                if deliver(c, a, th):
                    return True
            else:
                queues[t].append((c, a))
        return False

    for op in sc["ops"]:
        k = op[0]
        del log[:], want[:]
        raised = wraise = None
        if k == "c":
            _, i, th, by = op
            f = [cb0, functools.partial(cb1, "k"), o.m][i]
            arg = None if th is None else "main" if th == 0 else "current" if th == by else ths[th].t
            e, _ = ths[by].do(lambda: sig.connect(f, thread=arg))
            if e:
                return f"{op}: {e!r}"
            conns.append((i, th))
        elif k == "e":
            v = op[1]
            cfg["again"] = None if len(op) < 4 or not op[3] else (0, (v, v + 1))
            save = cfg["again"]
            wraise = m_emit((v, v + 1), op[2])
            if m_again[0]:
                m_again[0] = False
            cfg["again"] = save
            e, _ = ths[op[2]].do(lambda: sig.emit(v, v + 1))
            cfg["again"] = None
            raised = e
        elif k == "q":
            _, th, by = op
            wraise = False
            while queues[th]:
                c, a = queues[th].pop(0)
                if deliver(c, a, by):
                    wraise = True
                    break
            e, _ = ths[by].do(lambda: emit_queued(None if th == by else ths[th].t))
            raised = e
        elif k == "fail":
            cfg["fail"] = op[1]
        elif k == "d":
            i = op[1]
            ths[0].do(lambda: sig.disconnect([cb0, cb1, o.m][i]))
            for n, (c, t) in enumerate(conns):
                if c == i:
                    del conns[n]
                    break
        if raised is not None and not isinstance(raised, EmitLoopError):
            return f"{op}: {raised!r}"
        if raised is not None and not isinstance(raised.__cause__, (Boom, EmitLoopError)):
            return f"{op}: cause {raised.__cause__!r}"
        if (raised is not None) != bool(wraise):
            return f"{op}: EmitLoopError {'missing' if wraise else 'unexpected'}"
        if log != want:
            return f"{op}: calls (callback, thread, args) {log}, expected {want}"
    del log[:], want[:]
    cfg["fail"] = None
    for th in range(3):
        while queues[th]:
            c, a = queues[th].pop(0)
            deliver(c, a, th)
        e, _ = ths[th].do(emit_queued)
        if e:
            return f"draining queue {th}: {e!r}"
    if log != want:
        return f"draining all queues: calls {log}, expected {want}"
    if len(sig) != len(conns):
        return f"{len(sig)} connections, expected {len(conns)}"
    return None


def exhaustive(tier):
    for ops in itertools.chain.from_iterable(itertools.product(("main", "other", "live"), repeat=r) for r in (1, 2, 3, 4)):
        if ops.count("live") <= 1:
            yield {"life": list(ops)}
    yield {"life": ["live"] + ["other"] * 30}
    alpha = [["c", 0, 0, 0], ["c", 1, 1, 0], ["c", 2, 2, 2], ["c", 0, None, 1], ["e", 1, 0], ["e", 2, 1], ["e", 3, 2], ["q", 0, 0], ["q", 1, 1], ["q", 1, 0], ["fail", 2]]
    for r in (2, 3, 4):
        for ops in itertools.product(alpha, repeat=r):
            if any(o[0] == "e" for o in ops) and ops[0][0] == "c":
                yield {"ops": list(ops)}


def random_scenario(rng):
    ops = [["c", rng.randint(0, 2), rng.choice([None, 0, 1, 2]), rng.randint(0, 2)] for _ in range(rng.randint(1, 4))]
    for _ in range(rng.randint(2, 20)):
        k = rng.random()
        if k < 0.12:
            ops.append(["c", rng.randint(0, 2), rng.choice([None, 0, 1, 2]), rng.randint(0, 2)])
        elif k < 0.6:
            ops.append(["e", rng.randint(1, 6), rng.randint(0, 2), rng.random() < 0.2])
        elif k < 0.9:
            ops.append(["q", rng.randint(0, 2), rng.randint(0, 2)])
        elif k < 0.95:
            ops.append(["fail", rng.choice([None, 1, 2, "k"])])
        else:
            ops.append(["d", rng.randint(0, 2)])
    return {"ops": ops}
