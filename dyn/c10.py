"""C10 scenarios: histories of group connect/disconnect/connect_direct/emission (nested emissions, conflicting names, aliases of
members) against a model of who is connected where."""
import functools
import itertools

from psygnal import EmissionInfo, Signal, SignalGroup

BOUND = "exhaustive: all histories of <=3 operations from 25; random: <=20 operations, 3 members, 4 callbacks, re-emitting callbacks"


def mkgroup():
    class G(SignalGroup):
        a = Signal(int)
        b = Signal(int, str)
        c = Signal(object, reemission="queued", name="cc")
    return G


G = mkgroup()


class Boom(Exception):
    pass


def run_declare(sc):
    """which signals a declared group has"""
    import warnings
    n, how = sc["declare"], sc["how"]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")

        Mix = type("Mix", (), {n: Signal(int)} if how in ("mixin", "both") else {})

        class Base(SignalGroup, signal_aliases={"x": "q", "y": None}):
            q = Signal(int)
        body = {"a": Signal(int), "other": 5}
        if how in ("own", "both"):
            body[n] = Signal(int)
        D = type(SignalGroup)("D", (Mix, Base), body, signal_aliases={"y": "a"})
    names = {"a", "q"} | ({n} if how != "none" else set())
    g = D()
    if set(g) != names or set(Base()) != {"q"}:
        return f"members {sorted(g)}, expected {sorted(names)}"
    if D._psygnal_aliases != {"x": "q", "y": "a"} or Base._psygnal_aliases != {"x": "q", "y": None}:
        return f"aliases {D._psygnal_aliases} / {Base._psygnal_aliases}"
    reserved = n in dir(SignalGroup) or n.startswith("psygnal")
    if (how != "none" and reserved) != any(x.category is UserWarning for x in w):
        return "a conflicting name is announced exactly when there is one"
    got = []
    g.connect(lambda info: got.append((info.signal is g[m], info.args)))
    for m in sorted(g):
        g[m].emit(7)
    if got != [(True, (7,))] * len(names):
        return f"the group relayed {got} for one emission of each of {sorted(names)}"
    if g.all is not g._psygnal_relay or g.other != 5 or g.a is not g["a"]:
        return "an attribute of the group was replaced"
    if reserved and n in dir(SignalGroup) and type(getattr(g, n)).__name__ == "SignalInstance":
        return f"the group's own {n} was replaced by a signal"
    return None


def run(sc):
    if "declare" in sc:
        return run_declare(sc)
    g, other = G(), G()
    log = []
    cfg = {"reemit": None}

    def mk(i):
        def cb(*args):
            log.append((i, args))
            if cfg["reemit"] is not None and cfg["reemit"][0] == i:
                tgt = cfg["reemit"][1]
                cfg["reemit"] = None
                emit(tgt, 77)
        return cb

    class O:
        def __init__(self, i):
            self.f = mk(i)

        def m(self, *args):
            self.f(*args)
    o2 = O(2)
    cbs = [mk(0), mk(1), o2.m, functools.partial(mk(3))]
    grp, direct = [], {n: [] for n in "abc"}
    blocked = paused = False

    def emit(n, v):
        args = (v,) if n != "b" else (v, "s")
        g[n].emit(*args)
        return args

    def flat(a):
        if len(a) == 1 and isinstance(a[0], EmissionInfo):
            return ("info", [n for n in "abc" if g[n] is a[0].signal], a[0].args)
        return ("raw", a)

    def deliver(n, v, want, reemit, depth=0):
        """model of one emission: member slots in connection order; the relay sits where it was connected"""
        args = (v,) if n != "b" else (v, "s")
        for e in direct[n]:
            if e == "relay":
                for i in list(grp):
                    want.append((i, ("info", [n], args)))
                    if reemit and reemit[0] == i:
                        t = reemit[1]
                        reemit.clear()
                        deliver(t, 77, want, reemit)
            else:
                want.append((e, ("raw", args)))
                if reemit and reemit[0] == e:
                    t = reemit[1]
                    reemit.clear()
                    deliver(t, 77, want, reemit)

    for op in sc["ops"]:
        k = op[0]
        try:
            if k == "c":
                f = cbs[op[1]]
                if op[2]:
                    g.connect(**{"unique": False})(f)
                else:
                    g.connect(f)
                grp.append(op[1])
                if len(grp) == 1:
                    for n in "abc":
                        direct[n].append("relay")
            elif k == "cd":
                f = cbs[op[1]]
                g.connect_direct(f) if not op[2] else g.all.connect_direct()(f)
                for n in "abc":
                    direct[n].append(op[1])
            elif k == "cm":
                g[op[2]].connect(cbs[op[1]])
                direct[op[2]].append(op[1])
            elif k == "d":
                mo = op[2]
                i = op[1]
                present = i in grp or any(i in direct[n] for n in "abc")
                err = None
                try:
                    g.disconnect(cbs[i], missing_ok=mo)
                except ValueError as e:
                    err = e
                if (err is not None) != (not present and not mo):
                    return f"{op}: ValueError {'unexpected' if err else 'missing'}"
                for n in "abc":
                    if i in direct[n]:
                        direct[n].remove(i)
                if i in grp:
                    grp.remove(i)
                    if not grp:
                        for n in "abc":
                            direct[n].remove("relay")
            elif k == "da":
                g.disconnect()
                grp.clear()
                for n in "abc":
                    direct[n].clear()
            elif k == "pz":
                g.pause()
                paused = True
            elif k == "rs":
                g.resume()
                paused = False
            elif k == "e" and paused:
                continue
            elif k == "e":
                del log[:]
                cfg["reemit"] = op[2] if len(op) > 2 and op[2] else None
                want = []
                if not blocked:
                    deliver(op[1], 5, want, list(op[2]) if len(op) > 2 and op[2] else [])
                emit(op[1], 5)
                cfg["reemit"] = None
                got = [(i, flat(a)) for i, a in log]
                if got != want:
                    return f"{op}: delivered {got}, expected {want}"
            elif k == "blk":
                g.block()
                blocked = True
            elif k == "ublk":
                g.unblock()
                blocked = False
            elif k == "eo":
                del log[:]
                other["a"].emit(1)
                if log:
                    return "another group's emission heard"
        except Boom:
            pass
        if len(g.all) != len(grp):
            return f"{op}: group has {len(g.all)} listeners, expected {len(grp)}"
        for n in "abc":
            if len(g[n]) != len(direct[n]):
                return f"{op}: member {n} has {len(g[n])} connections, expected {direct[n]}"
        if list(g) != list("abc") or len(g) != 3 or g.signals["c"] is not g["c"] or ("a" in g) is not True or "z" in g:
            return "group lookup"
        if not sc.get("skipattr") and (g.a is not g["a"] or g.b is not g["b"] or g.c is not g["c"] or g["a"].instance is not g):
            return "member attribute is not the member signal"
    if any(len(other[n]) for n in "abc"):
        return "another group's member was connected"
    return None


def exhaustive(tier):
    for n in ("all", "connect", "signals", "psygnals_uniform", "z", "name_z"):
        for how in ("own", "mixin", "both", "none"):
            yield {"declare": n, "how": how}
    alpha = [["c", i, 0] for i in (0, 2)] + [["cd", 0, 0], ["cd", 1, 1], ["cm", 0, "a"], ["cm", 1, "b"], ["c", 3, 1]] + \
        [["d", i, mo] for i in (0, 1, 2) for mo in (True, False)] + [["da"]] + [["e", n] for n in "abc"] + [["e", "a", [0, "b"]], ["e", "b", [0, "a"]], ["eo"], ["blk"], ["ublk"], ["pz"]]
    for r in (1, 2, 3):
        for ops in itertools.product(alpha, repeat=r):
            yield {"ops": list(ops) + ([["rs"]] + [["e", n] for n in "abc"] if ["pz"] in ops else [])}


def random_scenario(rng):
    ops = []
    for _ in range(rng.randint(2, 20)):
        k = rng.random()
        if k < 0.2:
            ops.append(["c", rng.randint(0, 3), rng.randint(0, 1)])
        elif k < 0.3:
            ops.append(["cd", rng.randint(0, 3), rng.randint(0, 1)])
        elif k < 0.4:
            ops.append(["cm", rng.randint(0, 3), rng.choice("abc")])
        elif k < 0.6:
            ops.append(["d", rng.randint(0, 3), rng.random() < 0.5])
        elif k < 0.64:
            ops.append(["da"])
        elif k < 0.72:
            ops.append([rng.choice(["blk", "ublk", "pz", "rs", "rs"])])
        else:
            ops.append(["e", rng.choice("abc"), rng.choice([None, None, [rng.randint(0, 3), rng.choice("ab")]])])
    return {"ops": ops}
