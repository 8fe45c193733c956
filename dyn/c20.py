"""C20 scenarios: sequences of calls, time steps, flushes and cancels on throttled/debounced functions over a simulated clock (the Timer class
is replaced by one driven by the scenario; a cancelled timer stays alive until time moves, like a thread that has not been scheduled yet);
the log of (time, arguments) is compared with the specified state machine."""
import itertools
import random
import threading

import psygnal._throttler as T
from psygnal import debounced, throttled

BOUND = "exhaustive: all sequences of <=5 of {call, step half an interval, step one interval, flush, cancel} per kind and policy; random: <=20 operations, raising and re-entrant functions"


class Clock:
    def __init__(self):
        self.now = 0.0
        self.timers = []
        self.hook = None

    def advance(self, dt):
        for t in self.timers:
            if t.cancelled:
                t.done = True
        end = self.now + dt
        while True:
            due = [t for t in self.timers if not t.done and not t.cancelled and t.at <= end + 1e-9]
            if not due:
                break
            t = min(due, key=lambda t: t.at)
            self.now = max(self.now, t.at)
            t.fire()
        self.now = end
        self.timers = [t for t in self.timers if not t.done]


def fake(clock):
    class FakeTimer:
        def __init__(self, interval, function, args=None, kwargs=None):
            self.interval, self.function = interval, function
            self.args, self.kwargs = args or (), kwargs or {}
            self.started = self.done = self.cancelled = False
            self.at = None
            self.daemon = False
            self.name = "fake"

        def start(self):
            if self.started:
                raise RuntimeError("threads can only be started once")
            self.started = True
            self.at = clock.now + self.interval
            clock.timers.append(self)

        def cancel(self):
            self.cancelled = True

        def is_alive(self):
            return self.started and not self.done

        def fire(self):
            try:
                self.function(*self.args, **self.kwargs)
            except LookupError:
                pass
            if clock.hook:      # something that happens after the function returned, before the thread has ended
                h, clock.hook = clock.hook, None
                h()
            self.done = True

        def join(self, timeout=None):
            if not self.started:
                raise RuntimeError("cannot join thread before it is started")
            clock.advance(0)
    return FakeTimer


def run(sc):
    clock = Clock()
    kind, leading, I = sc["kind"], sc["leading"], 0.1
    log, exp = [], []
    react = {int(a): b for a, b in sc.get("react", {}).items()}     # after the n-th call: ops performed inside the function
    F = fake(clock)
    old, old2 = T.__dict__.get("Timer"), threading.Timer
    T.Timer = F
    threading.Timer = F
    st = {"pend": None, "dl": None, "busy": False}
    try:
        def body(*a, **k):
            n = len(log)
            log.append((round(clock.now, 3), a, tuple(k.items())))
            for op in react.get(n, []):
                do(op)
            if a and a[0] == "bad":
                raise LookupError("bad")
        deco = throttled if kind == "throttled" else debounced
        f = deco(body, timeout=int(I * 1000), leading=leading) if sc.get("form", 0) == 0 else deco(timeout=int(I * 1000), leading=leading)(body)
        cnt = [0]

        def do(op):
            if op[0] == "call":
                cnt[0] += 1
                f(op[1] if len(op) > 1 else cnt[0], k=cnt[0])
            elif op[0] == "flush":
                f.flush()
            elif op[0] == "cancel":
                f.cancel()

        # the specified machine
        mc = [0]

        def m_call(args, via_timer=False):
            n = len(exp)
            exp.append((round(mnow[0], 3), (args[0],), (("k", args[1]),)))
            for op in react.get(n, []):
                m_do(op)
            st["dl"] = mnow[0] + I
            if args[0] == "bad":
                raise LookupError

        mnow = [0.0]
        last = [None]

        def m_do(op):
            if op[0] == "call":
                mc[0] += 1
                args = (op[1] if len(op) > 1 else mc[0], mc[0])
                last[0] = args
                idle = st["dl"] is None
                st["pend"] = args
                if idle and leading:
                    st["pend"] = None
                    m_call(args)
                elif idle:
                    st["dl"] = mnow[0] + I
                if kind == "debounced":
                    st["dl"] = mnow[0] + I
            elif op[0] == "flush":
                if st["pend"] is not None:
                    a, st["pend"] = st["pend"], None
                    m_call(a)
            elif op[0] == "cancel":
                st["pend"] = None
                st["dl"] = None

        def m_adv(dt):
            end = mnow[0] + dt
            while st["dl"] is not None and st["dl"] <= end + 1e-9:
                mnow[0] = max(mnow[0], st["dl"])
                if st["pend"] is not None:
                    a, st["pend"] = st["pend"], None
                    try:
                        m_call(a)
                    except LookupError:
                        pass
                else:
                    st["dl"] = None
            mnow[0] = end

        for op in sc["ops"] + [["adv", 1.0]] * 2:
            if op[0] == "adv":
                clock.advance(op[1] * I)
                m_adv(op[1] * I)
                continue
            if op[0] == "race":
                clock.hook = lambda: do(["call"])
                clock.advance(I)
                m_adv(I)
                m_do(["call"])
                continue
            e1 = e2 = None
            try:
                do(op)
            except LookupError as e:
                e1 = e
            try:
                m_do(op)
            except LookupError as e:
                e2 = e
            if type(e1) is not type(e2):
                return f"{op}: raised {e1!r}, expected {e2!r}"
            if log != exp:
                return f"{op}: called {log}, expected {exp}"
        if log != exp:
            return f"called {log}, expected {exp}"
        return None
    finally:
        threading.Timer = old2
        if old is None:
            del T.Timer
        else:
            T.Timer = old


CFG = [(k, l) for k in ("throttled", "debounced") for l in (True, False)]
OPS = [["call"], ["adv", 0.5], ["adv", 1.0], ["flush"], ["cancel"]]


def exhaustive(tier):
    for n in range(1, 6):
        for ops in itertools.product(OPS, repeat=n):
            for k, l in CFG:
                yield {"kind": k, "leading": l, "ops": [list(o) for o in ops], "form": n % 2}


def random_scenario(rng: random.Random):
    ops = []
    for _ in range(rng.randint(3, 20)):
        k = rng.choice(["call", "call", "call", "adv", "adv", "flush", "cancel"])
        if k == "call":
            ops.append(["call", "bad"] if rng.random() < 0.15 else ["call"])
        elif k == "adv":
            ops.append(["adv", rng.choice([0.0, 0.3, 0.5, 1.0, 1.2, 2.5])])
        else:
            ops.append([k])
    sc = {"kind": rng.choice(["throttled", "debounced"]), "leading": rng.random() < 0.5, "form": rng.randrange(2), "ops": ops}
    if rng.random() < 0.3:
        sc["react"] = {str(rng.randrange(4)): [rng.choice([["call"], ["call"], ["flush"], ["cancel"]])] for _ in range(rng.randint(1, 2))}
    return sc


KNOWN = {"F25": {"kind": "throttled", "leading": True, "ops": [["call"], ["race"]]}}
