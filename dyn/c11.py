"""C11 scenarios: group block/unblock/blocked (with excludes) and pause/resume/paused (reducers, exceptions), single members
blocked or emitted in between; against a state model."""
import itertools

from psygnal import EmissionInfo, EmitLoopError, Signal, SignalGroup

BOUND = "exhaustive: all histories of <=3 operations from 24; random: <=16 operations, nested contexts"


class G(SignalGroup):
    a = Signal(int)
    b = Signal(int)
    c = Signal(int)


NAMES = "abc"


class Boom(Exception):
    pass


def run(sc):
    g = G()
    glog, mlog = [], []
    fail = [None]

    def listener(info):
        glog.append(([n for n in NAMES if g[n] is info.signal], info.args))
        if fail[0] is not None and info.args == (fail[0],):
            raise Boom
    nol = sc.get("nolistener")
    if not nol:
        g.connect(listener)
    for n in NAMES:
        g[n].connect(lambda v, n=n: mlog.append((n, v)))
    # model
    mb = {n: False for n in NAMES}          # member blocked
    saved = {}                              # state to restore at unblock (first block wins)
    st = {"gb": False, "gp": False, "held": []}

    def excl(e):
        return {0: (), 1: ("a",), 2: (g["b"],), 3: ("a", g["c"]), 4: ["b", "c", "a"]}[e]

    def ex_names(e):
        return {0: set(), 1: {"a"}, 2: {"b"}, 3: {"a", "c"}, 4: {"a", "b", "c"}}[e]

    def block(e):
        st["gb"] = True
        for n in NAMES:
            saved.setdefault(n, mb[n])
            if n not in ex_names(e):
                mb[n] = True

    def unblock():
        st["gb"] = False
        for n in NAMES:
            if not saved.pop(n, False):
                mb[n] = False

    def do(ops):
        for op in ops:
            k = op[0]
            del glog[:], mlog[:]
            wg, wm, wraise = [], [], False
            raised = False
            if k == "e":
                n, v = op[1], op[2]
                if not mb[n]:
                    if not nol:
                        # the listener of a blocked group is called by the relay unless paused
                        if st["gp"]:
                            st["held"].append((n, v))
                        else:
                            wg.append(([n], (v,)))
                            wraise = fail[0] == v
                    if not wraise:
                        wm.append((n, v))
                try:
                    g[n].emit(v)
                except EmitLoopError:
                    raised = True
            elif k == "bm":
                g[op[1]].block()
                mb[op[1]] = True
            elif k == "um":
                g[op[1]].unblock()
                mb[op[1]] = False
            elif k == "b":
                g.block(exclude=excl(op[1]))
                block(op[1])
            elif k == "u":
                g.unblock()
                unblock()
            elif k == "p":
                g.pause()
                st["gp"] = True
            elif k in ("r", "wp"):
                if k == "wp":
                    was = st["gp"]
                    try:
                        with g.paused(*RED[op[2]]):
                            st["gp"] = True
                            m = do(op[1])
                            if m:
                                return m
                            del glog[:], mlog[:]
                            if op[3]:
                                raise KeyError
                    except KeyError:
                        pass
                    except EmitLoopError:
                        raised = True
                    if was:
                        if not st["gp"]:
                            return "inner resume?"
                        if glog or mlog or raised:
                            return f"{op}: something was delivered leaving an inner paused()"
                        continue
                else:
                    try:
                        g.resume(*RED[op[1]])
                    except EmitLoopError:
                        raised = True
                st["gp"] = False
                held, st["held"] = st["held"], []
                red = op[1] if k == "r" else op[2]
                if held and red:
                    held = [held[-1]]
                for n, v in held:
                    wg.append(([n], (v,)))
                    if fail[0] == v:
                        wraise = True
                        break
            elif k == "wb":
                was = st["gb"]
                left = False
                with_exc = op[3]
                try:
                    with g.blocked(exclude=excl(op[2])):
                        block(op[2])
                        m = chk(op)
                        if m:
                            return m
                        m = do(op[1])
                        if m:
                            return m
                        if with_exc:
                            raise KeyError
                except KeyError:
                    left = True
                if left != bool(with_exc):
                    return "exception swallowed"
                if not was:
                    unblock()
                del glog[:], mlog[:]
            elif k == "fail":
                fail[0] = op[1]
            if raised != wraise:
                return f"{op}: EmitLoopError {'unexpected' if raised else 'missing'}"
            if glog != wg or mlog != wm:
                return f"{op}: group heard {glog}, members {mlog}; expected {wg}, {wm}"
            m = chk(op)
            if m:
                return m
        return None

    def chk(op):
        got = {n: g[n]._is_blocked for n in NAMES}
        if got != mb:
            return f"{op}: blocked states {got}, expected {mb}"
        if g.all._is_blocked != st["gb"] or g.all._is_paused != st["gp"]:
            return f"{op}: group blocked={g.all._is_blocked} paused={g.all._is_paused}"
        return None
    return do(sc["ops"])


RED = {0: (), 1: (lambda a, b: b,), 2: (lambda its: list(its)[-1],)}


def wellnested(ops):
    """explicit unblock/resume inside contexts, and several excludes nested, are outside the property"""
    return True


def exhaustive(tier):
    alpha = [["e", "a", 1], ["e", "b", 2], ["bm", "a"], ["um", "a"], ["bm", "b"], ["b", 0], ["b", 1], ["b", 3], ["u"], ["p"], ["r", 0], ["r", 1], ["r", 2], ["fail", 1],
             ["wb", [["e", "a", 1], ["e", "c", 3]], 0, 0], ["wb", [["e", "a", 1], ["e", "b", 3]], 1, 1], ["wb", [["wb", [["e", "a", 1]], 0, 0], ["e", "b", 3]], 0, 0],
             ["wb", [["bm", "a"]], 2, 0], ["wp", [["e", "a", 1], ["e", "b", 2]], 0, 0], ["wp", [["e", "a", 1], ["e", "c", 2]], 1, 1],
             ["wp", [["wp", [["e", "a", 4]], 0, 0], ["e", "b", 2]], 0, 0], ["wb", [["wp", [["e", "a", 5]], 0, 0]], 1, 0]]
    for r in (1, 2, 3):
        for ops in itertools.product(alpha, repeat=r):
            yield {"ops": list(ops)}
            if r < 3:
                yield {"ops": list(ops), "nolistener": True}


def random_scenario(rng):
    def ops(n, d):
        out = []
        for _ in range(n):
            k = rng.random()
            if k < 0.4:
                out.append(["e", rng.choice(NAMES), rng.randint(0, 5)])
            elif k < 0.5:
                out.append([rng.choice(["bm", "um"]), rng.choice(NAMES)])
            elif k < 0.58:
                out.append(["b", rng.randint(0, 4)])
            elif k < 0.66:
                out.append(["u"])
            elif k < 0.7 and d == 0:
                out.append(["p"])
            elif k < 0.76 and d == 0:
                out.append(["r", rng.randint(0, 2)])
            elif k < 0.8:
                out.append(["fail", rng.choice([None, 1, 2])])
            elif d < 3:
                out.append([rng.choice(["wb", "wp"]), ops(rng.randint(0, 3), d + 1), rng.randint(0, 2), rng.choice([0, 0, 1])])
        return out
    return {"ops": ops(rng.randint(1, 8), 0), "nolistener": rng.random() < 0.1}
