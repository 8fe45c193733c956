"""C03 scenarios: histories of connect/disconnect (unique, missing_ok, priorities, setattr/setitem
bindings) against an ordered list of (key, priority)."""
import itertools
from functools import partial

from psygnal import SignalInstance

BOUND = "exhaustive: all histories of <=3 operations over 2 callbacks; random: <=30 operations over 9 callbacks"


class K:
    a = 0
    b = 0

    def m(self, x=None): ...
    def n(self, x=None): ...
    def __call__(self, x=None): ...
    def __setitem__(self, k, v): ...


class Eq:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Eq) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __call__(self, x=None): ...


def run(sc):
    if sc.get("known"):
        return known(sc["known"])
    def f(x=None): ...
    def g(x=None): ...
    k1, k2 = K(), K()
    def getcb(n):
        return {"f": f, "g": g, "m1": k1.m, "n1": k1.n, "m2": k2.m, "c1": k1, "c2": k2, "pf": pf, "pm": pm}[n]
    pf = partial(g, 1)
    pm = partial(k2.n, 2)
    if "g" in sc.get("use", "") or True:
        pass
    key = lambda n: "g" if n == "pf" else n   # partials of a function share its identity (known finding)
    objs = {"1": k1, "2": k2}
    sig = SignalInstance((object,), check_nargs_on_connect=bool(sc.get("cn", 1)))
    conns = []

    def ins(k, pr):
        pos = len(conns)
        while pos > 0 and conns[pos - 1][1] < pr:
            pos -= 1
        conns.insert(pos, (k, pr))

    def rem(k):
        for i, (x, _) in enumerate(conns):
            if x == k:
                del conns[i]
                return True
        return False

    for op in sc["ops"]:
        kind = op[0]
        if kind == "c":
            _, n, uniq, pr = op
            dup = any(x == key(n) for x, _ in conns)
            try:
                r = sig.connect(getcb(n), unique=uniq, priority=pr)
                err = None
            except ValueError as e:
                err = e
            if uniq == "raise" and dup:
                if err is None:
                    return f"{op}: no ValueError for a duplicate connection"
            elif err is not None:
                return f"{op}: unexpected {err!r}"
            elif not (uniq and dup):
                ins(key(n), pr)
        elif kind == "d":
            _, n, mok = op
            known_ = any(x == key(n) for x, _ in conns)
            try:
                sig.disconnect(getcb(n), missing_ok=mok)
                err = None
            except ValueError as e:
                err = e
            if known_:
                if err is not None:
                    return f"{op}: unexpected {err!r}"
                rem(key(n))
            elif mok and err is not None or not mok and err is None:
                return f"{op}: missing callback, missing_ok={mok}: {err!r}"
        elif kind == "D":
            sig.disconnect()
            conns.clear()
        elif kind == "sa":
            _, o, at, pr = op
            sig.connect_setattr(objs[o], at, maxargs=1, priority=pr)
            ins(("a", o, at), pr)
        elif kind == "dsa":
            _, o, at, mok = op
            known_ = any(x == ("a", o, at) for x, _ in conns)
            try:
                sig.disconnect_setattr(objs[o], at, missing_ok=mok)
                err = None
            except ValueError as e:
                err = e
            if known_:
                if err is not None:
                    return f"{op}: unexpected {err!r}"
                rem(("a", o, at))
            elif mok and err is not None or not mok and err is None:
                return f"{op}: {err!r}"
        elif kind == "si":
            _, o, kk, pr = op
            sig.connect_setitem(objs[o], kk, maxargs=1, priority=pr)
            ins(("i", o, kk), pr)
        elif kind == "dsi":
            _, o, kk, mok = op
            known_ = any(x == ("i", o, kk) for x, _ in conns)
            try:
                sig.disconnect_setitem(objs[o], kk, missing_ok=mok)
                err = None
            except ValueError as e:
                err = e
            if known_:
                if err is not None:
                    return f"{op}: unexpected {err!r}"
                rem(("i", o, kk))
            elif mok and err is not None or not mok and err is None:
                return f"{op}: {err!r}"
        if len(sig) != len(conns):
            return f"after {op}: len(signal)={len(sig)}, expected {len(conns)} {conns}"
        for n in ("f", "g", "m1", "n1", "m2", "c1", "c2", "pm"):
            want = any(x == key(n) for x, _ in conns)
            if (getcb(n) in sig) is not want:
                return f"after {op}: ({n} in signal) is {getcb(n) in sig}, expected {want}"
        got = [ident(s, sig, f, g, k1, k2) for s in sig._slots]
        want = [norm(x) for x, _ in conns]
        if got != want:
            return f"after {op}: calling order {got}, expected {want}"
    return None


def norm(x):
    return x if isinstance(x, tuple) else x


def ident(s, sig, f, g, k1, k2):
    from psygnal._weak_callback import WeakSetattr, WeakSetitem
    if isinstance(s, WeakSetattr):
        return ("a", "1" if s._obj_ref() is k1 else "2", s._attr)
    if isinstance(s, WeakSetitem):
        return ("i", "1" if s._obj_ref() is k1 else "2", s._itemkey)
    d = s.dereference()
    d0 = d.func if isinstance(d, partial) else d
    if d0 is f:
        return "f"
    if d0 is g:
        return "g"
    for n, o in (("1", k1), ("2", k2)):
        if d0 is o:
            return "c" + n
        if getattr(d0, "__self__", None) is o:
            nm = d0.__name__
            if nm == "__call__":
                return "c" + n
            return {"m": "m" + n, "n": "n" + n if not isinstance(d, partial) else "pm"}[nm] if not (nm == "n" and n == "2") else "pm"
    return repr(d)


def exhaustive(tier):
    alpha = [["c", n, u, p] for n in ("f", "m1") for u in (False, True, "raise") for p in (0, 1)]
    alpha += [["d", n, m] for n in ("f", "m1") for m in (True, False)]
    alpha += [["D"], ["sa", "1", "a", 0], ["dsa", "1", "a", False], ["dsa", "2", "a", True], ["si", "1", "k", 1], ["dsi", "1", "k", False]]
    for r in (1, 2, 3):
        for ops in itertools.product(alpha, repeat=r):
            yield {"ops": [list(o) for o in ops]}


def random_scenario(rng):
    ops = []
    for _ in range(rng.randint(1, 30)):
        k = rng.random()
        n = rng.choice(["f", "g", "m1", "n1", "m2", "c1", "c2", "pf", "pm"])
        if k < 0.45:
            ops.append(["c", n, rng.choice([False, False, True, "raise"]), rng.choice([0, 0, 0, 1, -1, 3])])
        elif k < 0.7:
            ops.append(["d", n, rng.choice([True, False])])
        elif k < 0.73:
            ops.append(["D"])
        elif k < 0.8:
            ops.append(["sa", rng.choice("12"), rng.choice("ab"), rng.choice([0, 2])])
        elif k < 0.87:
            ops.append(["dsa", rng.choice("12"), rng.choice("ab"), rng.choice([True, False])])
        elif k < 0.94:
            ops.append(["si", rng.choice("12"), rng.choice("kj"), rng.choice([0, 2])])
        else:
            ops.append(["dsi", rng.choice("12"), rng.choice("kj"), rng.choice([True, False])])
    return {"ops": ops, "cn": rng.choice([0, 1])}


def known(w):
    sig = SignalInstance((object,))
    def g(*a): ...
    if w == "F19":
        sig.connect(partial(g, 1))
        return "a partial is 'in' a signal only its plain function is connected to (partials of one function are the same slot)" if g in sig else None
    if w == "F20":
        class K:
            pass
        k = K()
        import types
        fa = lambda self: 1   # noqa: E731
        fb = lambda self: 2   # noqa: E731
        a, b = types.MethodType(fa, k), types.MethodType(fb, k)
        sig = SignalInstance(())
        sig.connect(a)
        return "two methods of one object with the same __name__ are the same slot" if b in sig else None


KNOWN = {"F19": {"known": "F19"}, "F20": {"known": "F20"}}
