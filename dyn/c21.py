"""C21 scenarios: signals with every combination of settings, held arguments and strong/weak connections pickled (all protocols, cloudpickle,
deepcopy) and compared field by field and by emission; containers, groups and models copied in every way and then changed on either side."""
import copy
import functools
import itertools
import pickle
import random
import warnings

import cloudpickle

from psygnal import EventedModel, Signal, SignalGroup, SignalInstance
from psygnal.containers import EventedDict, EventedList, EventedOrderedSet, EventedSet, Selection, SelectableEventedList

BOUND = "exhaustive: all settings combinations x 5 ways of copying; all container kinds x ways; random: <=6 connections, <=4 held emissions"

LOG = []


def f1(*a):
    LOG.append(("f1", a))


def f2(*a, **k):
    LOG.append(("f2", a, tuple(sorted(k.items()))))


class Own:
    z = None

    def m(self, *a):
        LOG.append(("m", a))

    def __call__(self, *a):
        LOG.append(("call", a))


class Host:
    sig = Signal(int, int)


class Grp(SignalGroup):
    a = Signal(int)
    b = Signal(str)


class Mod(EventedModel):
    x: int = 1
    y: str = "s"


WAYS = ["0", "2", "5", "cloud", "deep"]


def dup(x, way):
    if way == "deep":
        return copy.deepcopy(x)
    if way == "cloud":
        return cloudpickle.loads(cloudpickle.dumps(x))
    return pickle.loads(pickle.dumps(x, int(way)))


FIELDS = ("name", "description", "_is_blocked", "_is_paused", "_args_queue", "_check_nargs_on_connect", "_check_types_on_connect", "_reemission", "_emit_queue", "_priority_in_use",
          "_recursion_depth", "_max_recursion_depth")


def run_sig(sc):
    o = sc["opts"]
    s = SignalInstance((int, int), name=o["name"], description=o["desc"], check_nargs_on_connect=o["cn"], check_types_on_connect=o["ct"], reemission=o["re"])
    owns = [Own(), Own()]
    strong, weak = 0, 0
    for c in sc["conns"]:
        kw = {"priority": c[1]} if c[1] else {}
        if c[0] == "f1":
            s.connect(f1, **kw)
        elif c[0] == "f2":
            s.connect(f2, max_args=1, **kw)
        elif c[0] == "pk":
            s.connect(functools.partial(f2, 7, z=3), check_nargs=False, **kw)
        elif c[0] == "p2":
            s.connect(functools.partial(f1, "b", "c"), check_nargs=False, max_args=1, **kw)
        elif c[0] == "m":
            s.connect(owns[0].m, **kw)
        elif c[0] == "call":
            s.connect(owns[1], **kw)
        elif c[0] == "attr":
            s.connect_setattr(owns[0], "z", **kw)
        strong += c[0] in ("f1", "f2", "pk", "p2")
        weak += c[0] not in ("f1", "f2", "pk", "p2")
    if o["paused"]:
        s.pause()
    for h in sc["held"]:
        s.emit(h, h + 1)
    if o["blocked"]:
        s.block()
    del LOG[:]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = dup(s, sc["way"])
    if bool(w) != bool(weak):
        return f"{weak} weak connections, warnings {[str(x.message) for x in w]}"
    if LOG:
        return "copying called callbacks"
    for k in FIELDS:
        if getattr(r, k) != getattr(s, k):
            return f"{k} is {getattr(r, k)!r}, was {getattr(s, k)!r}"
    if str(r.signature) != str(s.signature):
        return f"signature {r.signature}"
    if len(r) != strong:
        return f"{len(r)} connections kept, {strong} strong ones"
    if len(s) != strong + weak:
        return "original lost connections"
    out = []
    for x in (s, r):
        keep = [c for c in x._slots]
        if x is s:
            for c in (owns[0].m, owns[1]):
                while c in s:
                    s.disconnect(c)
            for _ in range(weak):
                try:
                    s.disconnect_setattr(owns[0], "z", missing_ok=False)
                except ValueError:
                    break
        del LOG[:]
        x.unblock()
        x.resume()
        x.emit(5, 6)
        x.emit(8, 9)
        out.append(list(LOG))
        del keep
    if out[0] != out[1]:
        return f"original delivers {out[0]}, copy {out[1]}"
    got = []
    r.connect(lambda *a: got.append(a))
    r.emit(1, 2)
    if got != [(1, 2)]:
        return f"copy is not working: {got}"
    n = len(s)
    if len(s) != n or (len(r) != strong + 1):
        return "connecting to the copy"
    if r._lock is s._lock:
        return "copy shares the lock"
    if r._slots is s._slots or r._args_queue is s._args_queue:
        return "copy shares its state"
    return None


def mk(kind, init):
    if kind == "list":
        return EventedList(init)
    if kind == "listc":
        return EventedList([EventedList([x]) for x in init], child_events=True)
    if kind == "dict":
        return EventedDict({x: [x] for x in init})
    if kind == "tdict":
        return EventedDict({x: x for x in init}, basetype=int)
    if kind == "set":
        return EventedSet(init)
    if kind == "oset":
        return EventedOrderedSet(init)
    if kind == "sel":
        return Selection(init, parent=[1, 2, 3, 4, 5])
    if kind == "slist":
        return SelectableEventedList(init)
    if kind == "group":
        return Grp()
    if kind == "model":
        return Mod(x=len(init))


def content(x):
    if isinstance(x, SignalGroup):
        return sorted(x), [str(s.signature) for s in x.values()] if hasattr(x, "values") else None
    if isinstance(x, EventedModel):
        return x.x, x.y
    if isinstance(x, EventedDict):
        return list(x.items())
    if isinstance(x, EventedSet) and not isinstance(x, EventedOrderedSet):
        return set(x)
    return [content(y) if isinstance(y, EventedList) else y for y in x]


def change(x, n):
    if isinstance(x, SignalGroup):
        x.a.emit(n)
    elif isinstance(x, EventedModel):
        x.x = x.x + n
    elif isinstance(x, EventedDict):
        x[n] = n
    elif isinstance(x, EventedList):
        x.append(EventedList([n]) if x._child_events else n)
    elif isinstance(x, Selection):
        x.discard(n) if n in x else x.add(n)
    elif isinstance(x, EventedSet):
        x.add(n)


def run_cont(sc):
    x = mk(sc["kind"], sc["init"])
    log, log2 = [], []
    ev = x if isinstance(x, SignalGroup) else x.events
    ev.connect(lambda i: log.append(i.signal.name))
    for s in ev:
        ev[s].connect(lambda *a, s=s: log.append(s))
    if sc["held"]:
        ev.pause()
        change(x, 4)
    before = content(x)
    way = sc["way"]
    if way == "copy":
        y = copy.copy(x)
    elif way == "deep":
        y = copy.deepcopy(x)
    elif way == "meth":
        if not hasattr(x, "copy"):
            return None
        y = x.copy()
    elif way == "slice":
        if not isinstance(x, EventedList):
            return None
        y = x[:]
    if sc["held"]:
        ev.resume()
    del log[:]
    if type(y) is not type(x) and sc["kind"] != "sel":
        return f"copy is a {type(y).__name__}"
    if content(y) != before or content(x) != before:
        return f"contents {content(y)}, expected {before}"
    ev2 = y if isinstance(y, SignalGroup) else y.events
    if ev2 is ev:
        return "copy shares its events"
    base = mk(sc["kind"], [])
    base = base if isinstance(base, SignalGroup) else base.events
    for s in ev2:
        if ev2[s] is ev[s]:
            return f"copy shares signal {s}"
        if len(ev2[s]) != len(base[s]):
            return f"signal {s} of the copy has connections"
        if ev2[s]._args_queue or ev2[s]._is_paused:
            return "copy holds emissions of the original"
    if len(ev2.all):
        return "the copy's group has connections"
    change(y, 5)
    if log:
        return f"changing the copy emitted {log} on the original"
    if content(x) != before:
        return "changing the copy changed the original"
    b2 = content(y)
    ev2.connect(lambda i: log2.append(i.signal.name))
    for n in (5, 3):
        change(x, n)
    if log2:
        return "changing the original emitted on the copy"
    if content(y) != b2:
        return "changing the original changed the copy"
    if not log and not (sc["kind"] in ("set", "oset")):
        return "original no longer emits"
    del log[:]
    change(y, 9) if sc["kind"] != "sel" else change(y, 2)
    if not log2 or log:
        return f"change of the copy: {log2} on the copy, {log} on the original"
    return None


def run_tdict(sc):
    d = EventedDict({1: 1}, basetype=int)
    c = d.copy()
    try:
        c[2] = "x"
    except TypeError:
        return None
    return "copy lost its value type"


def run_group_pickle(sc):
    g = Grp()
    g.connect(f1) if sc.get("conn") else None
    r = dup(g, sc["way"])
    del LOG[:]
    got = []
    r.a.connect(lambda *a: got.append(a))
    r.a.emit(3)
    if got != [(3,)]:
        return f"{got}"
    r.connect(lambda i: got.append(i.args))
    r.b.emit("x")
    if got != [(3,), ("x",)]:
        return f"{got}"
    return None


def run_deepwire(sc):
    x = SelectableEventedList([1, 2]) if sc["kind"] == "slist" else EventedList([EventedList([1])], child_events=True)
    d = copy.deepcopy(x)
    if sc["kind"] == "slist":
        d.selection.add(1)
        d.remove(1)
        return "a deep copy of a SelectableEventedList keeps removed items selected" if 1 in d.selection else None
    got = []
    d.events.connect(got.append)
    d[0].append(2)
    return None if got else "a deep copy of an EventedList with child events does not listen to its children"


def run_during(sc):
    """a copy made by a callback (inside `depth` nested emissions) or of a paused signal emits as a new signal does"""
    s = SignalInstance((int,), reemission=sc["mode"])
    del LOG[:]
    got = []

    def make(n):
        if n < sc["depth"]:
            s.emit(n + 1)
        elif not got:
            got.append(copy.copy(s) if sc["way"] == "copy" else dup(s, sc["way"]))
    s.connect(f1)
    h = [make]

    class Weak:
        def cb(self, n):
            h[0](n)
    w = Weak()
    s.connect(w.cb)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if sc["paused"]:
            s.pause()
            s.emit(-1)
            make(sc["depth"])
        else:
            s.emit(0)
    c = got[0]
    h[0] = lambda n: None
    del LOG[:]
    if sc["paused"]:
        c.emit(7)
        s.resume()
        if LOG != [("f1", (-1,))]:
            return f"a paused signal copied ({sc['way']}): emitting on the copy and resuming the original delivered {LOG}"
        del LOG[:]
        c.resume()
        exp = [("f1", (-1,)), ("f1", (7,))]
    else:
        for i in range(3):
            c.emit(i)
        exp = [("f1", (i,)) for i in range(3)]
    if LOG != exp:
        return f"a copy ({sc['way']}) made {'of a paused signal' if sc['paused'] else 'during an emission'} ({sc['mode']}) delivered {LOG}, expected {exp}"
    return None


def run(sc):
    if sc["t"] == "during":
        return run_during(sc)
    return {"sig": run_sig, "cont": run_cont, "tdict": run_tdict, "gp": run_group_pickle, "dw": run_deepwire}[sc["t"]](sc)


CK = ["f1", "f2", "pk", "p2", "m", "call", "attr"]
RE = ["immediate", "queued", "latest-only"]


def opts(rng=None, **k):
    o = {"name": "n", "desc": "d", "cn": True, "ct": False, "re": "immediate", "blocked": False, "paused": False}
    o.update(k)
    return o


def exhaustive(tier):
    for mode, way, depth, paused in itertools.product(("immediate", "queued", "latest-only"), WAYS + ["copy"], (0, 2), (False, True)):
        yield {"t": "during", "mode": mode, "way": way, "depth": depth, "paused": paused}
    yield {"t": "tdict"}
    for kind in ("list", "listc", "dict", "tdict", "set", "oset", "sel", "slist", "group", "model"):
        for way in ("copy", "deep", "meth", "slice"):
            for init in ([], [1], [1, 2, 3]):
                for held in (False, True):
                    if held and kind in ("model",) or kind == "slist" and way == "deep":
                        continue
                    yield {"t": "cont", "kind": kind, "way": way, "init": init, "held": held}
    for way in WAYS:
        for cn, ct, re_, bl, pa in itertools.product((True, False), (True, False), RE, (True, False), (True, False)):
            yield {"t": "sig", "way": way, "opts": opts(cn=cn, ct=ct, re=re_, blocked=bl, paused=pa, name="nm" if cn else None, desc="" if ct else "dd"),
                   "conns": [["f1", 0], ["pk", 2]], "held": [1, 2] if pa else []}
        for c in itertools.product(CK, repeat=2):
            yield {"t": "sig", "way": way, "opts": opts(ct=False), "conns": [[c[0], 0], [c[1], 1]], "held": []}


def random_scenario(rng: random.Random):
    return {"t": "sig", "way": rng.choice(WAYS), "opts": opts(cn=rng.random() < .5, ct=rng.random() < .3, re=rng.choice(RE), blocked=rng.random() < .3, paused=rng.random() < .5,
                                                              name=rng.choice(["a", "b", None]), desc=rng.choice(["", "x"])),
            "conns": [[rng.choice(CK), rng.choice([0, 0, 1, -1, 5])] for _ in range(rng.randrange(7))], "held": [rng.randrange(9) for _ in range(rng.randrange(5))]}


KNOWN = {"F28": {"t": "dw", "kind": "slist"}, "F29": {"t": "dw", "kind": "listc"}, "F21": {"t": "gp", "way": "5"}}
