"""C09 scenarios: instances of several shapes (dict, slots, no weakref, subclasses, group) and several declared signals; accesses,
connects, emits, deletions and id reuse, against a per-instance model."""
import gc
import itertools

from psygnal import Signal, SignalGroup, SignalInstance

BOUND = "exhaustive: all sequences of <=4 operations over 3 instances x 2 signals; random: <=25 operations, 7 class shapes"


def mk(shape):
    if shape == "plain":
        class C:
            a = Signal(int, str, description="da", check_nargs_on_connect=False, reemission="queued")
            b = Signal(int, name="bee", check_types_on_connect=True, reemission="latest-only")
    elif shape == "slots":
        class C:
            __slots__ = ("x", "__weakref__")
            a = Signal(int, str, description="da", check_nargs_on_connect=False, reemission="queued")
            b = Signal(int, name="bee", check_types_on_connect=True, reemission="latest-only")
    elif shape == "sub":
        class B:
            a = Signal(int, str, description="da", check_nargs_on_connect=False, reemission="queued")

        class C(B):
            b = Signal(int, name="bee", check_types_on_connect=True, reemission="latest-only")
    elif shape == "frozen":
        class C:
            a = Signal(int, str, description="da", check_nargs_on_connect=False, reemission="queued")
            b = Signal(int, name="bee", check_types_on_connect=True, reemission="latest-only")

            def __setattr__(self, k, v):
                raise AttributeError("frozen")
    elif shape == "eq":
        class C:
            a = Signal(int, str, description="da", check_nargs_on_connect=False, reemission="queued")
            b = Signal(int, name="bee", check_types_on_connect=True, reemission="latest-only")

            def __eq__(self, o):
                return True

            def __hash__(self):
                return 1
    elif shape == "eqslots":
        class C:
            __slots__ = ("__weakref__",)
            a = Signal(int, str, description="da", check_nargs_on_connect=False, reemission="queued")
            b = Signal(int, name="bee", check_types_on_connect=True, reemission="latest-only")

            def __eq__(self, o):
                return True

            def __hash__(self):
                return 1
    elif shape == "group":
        class C(SignalGroup):
            a = Signal(int, str, description="da", check_nargs_on_connect=False, reemission="queued")
            b = Signal(int, name="bee", check_types_on_connect=True, reemission="latest-only")
    return C


SHAPES = ["plain", "slots", "sub", "frozen", "eq", "eqslots", "group"]
OPTS = {"a": (2, "a", "da", False, False, "queued"), "b": (1, "bee", "", True, False, "latest-only")}


def run(sc):
    C = mk(sc["shape"])
    decl = {k: getattr(C, k) for k in "ab"}
    before = {k: (v._name, v.description, str(v.signature), v._reemission, v._check_nargs_on_connect, v._check_types_on_connect) for k, v in decl.items()}
    insts, sigs, conns, log = {}, {}, {}, []
    for op in sc["ops"]:
        k = op[0]
        if k == "kill":
            i = op[1]
            o = insts.pop(i, None)
            for key in [x for x in sigs if x[0] == i]:
                sigs.pop(key)
                conns.pop(key, None)
            if sc["shape"] == "group":
                del o
                gc.collect()
            else:
                del o
            continue
        if k == "copy":
            import copy
            c = copy.copy(insts[op[1]])
            if c.a is insts[op[1]].a or c.a.instance is not c and sc["shape"] != "group":
                return "a shallow copy of an instance shares the signals of the original"
            continue
        i, nm = op[1], op[2]
        if i not in insts:
            insts[i] = C()
        o = insts[i]
        s = getattr(o, nm)
        key = (i, nm)
        if not isinstance(s, SignalInstance):
            return f"{op}: access gave {s!r}"
        if s.instance is not o:
            return f"{op}: signal's instance is {s.instance!r}, not the accessed object"
        if key not in sigs:
            if any(s is x for x in sigs.values()):
                return f"{op}: signal shared between instances or declarations"
            if len(s) or s._is_blocked or s._is_paused or s._args_queue:
                return f"{op}: new instance's signal is not fresh ({len(s)} connections)"
            sigs[key] = s
            conns[key] = []
            n, name, descr, cn, ct, re_ = OPTS[nm]
            ct = before[nm][5]
            got = (len(s.signature.parameters), s.name, s.description, s._check_nargs_on_connect, s._check_types_on_connect, s._reemission)
            if got != (n, name, descr, cn if nm == "a" else True, ct, re_):
                return f"{op}: options {got}"
        elif sigs[key] is not s:
            return f"{op}: a different signal object on a later access"
        if k == "con":
            tag = (key, len(conns[key]))

            def cb(*a, tag=tag):
                log.append((tag, a))
            s.connect(cb)
            conns[key].append(tag)
        elif k == "emit":
            args = (1, "x") if nm == "a" else (5,)
            del log[:]
            s.emit(*args)
            want = [(t, args) for t in conns[key]]
            if log != want:
                return f"{op}: delivered {log}, expected {want}"
        elif k == "block":
            s.block()
            for kk, x in sigs.items():
                if x is not s and x._is_blocked:
                    return f"{op}: blocking affects {kk}"
            s.unblock()
        for kk, x in sigs.items():
            if len(x) != len(conns[kk]):
                return f"{op}: {kk} has {len(x)} connections, expected {len(conns[kk])}"
    after = {k: (v._name, v.description, str(v.signature), v._reemission, v._check_nargs_on_connect, v._check_types_on_connect) for k, v in decl.items()}
    if before != after:
        return f"declaration changed: {before} -> {after}"
    for k in "ab":
        if getattr(C, k) is not decl[k]:
            return "class attribute replaced"
    return None


def exhaustive(tier):
    alpha = [[k, i, s] for k in ("con", "emit") for i in (0, 1) for s in "ab"] + [["kill", 0], ["block", 0, "a"]]
    for shape in SHAPES:
        for r in (1, 2, 3):
            for ops in itertools.product(alpha, repeat=r):
                yield {"shape": shape, "ops": list(ops)}


def random_scenario(rng):
    ops = []
    for _ in range(rng.randint(1, 25)):
        k = rng.choice(["con", "con", "emit", "emit", "block", "kill"])
        ops.append([k, rng.randint(0, 3)] + ([rng.choice("ab")] if k != "kill" else []))
    return {"shape": rng.choice(SHAPES), "ops": ops}


KNOWN = {"F27": {"shape": "plain", "ops": [["con", 0, "a"], ["copy", 0]]}}
