"""Value domain of the symbolic executor.

Concrete Python scalars (None, bool, int, float, str, bytes) and Python tuples of values stand
for themselves; everything symbolic is one of the classes below.  Integers are mathematical
(Python's are), strings built at run time are opaque.
"""
from __future__ import annotations

import itertools
import z3

z3.set_param("model.completion", True)

_V = z3.Datatype("V")
_V.declare("none")
_V.declare("vbool", ("vb", z3.BoolSort()))
_V.declare("vint", ("vi", z3.IntSort()))
_V.declare("vstr", ("vs", z3.IntSort()))          # interned string constants
_V.declare("vobj", ("vo", z3.IntSort()))          # concrete heap objects, classes, functions
_V.declare("fam", ("ff", z3.IntSort()), ("fk", z3.IntSort()))  # k-th member of object family f
_V.declare("opq", ("oq", z3.IntSort()))           # any other object
V = _V.create()

_serial = itertools.count(1)
SERIAL: dict[str, int] = {}       # name of fresh constant/function -> creation number


def serial_now() -> int:
    return next(_serial)


def _name(prefix: str) -> str:
    k = next(_serial)
    n = f"{prefix}!{k}"
    SERIAL[n] = k
    return n


def fresh_int(p="i"):
    return z3.Int(_name(p))


def fresh_bool(p="b"):
    return z3.Bool(_name(p))


def fresh_v(p="v"):
    return z3.Const(_name(p), V)


def fresh_fun(p, *sorts):
    return z3.Function(_name(p), *sorts)


class Unsupported(Exception):
    """The construct is outside the verifier's reach: the unit is undecided, never refuted."""


class SInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class SV:
    """Opaque value: a term of sort V, with an optional class (ClassInfo, or a string tag).

    tag "atom": Python equality of such values is their identity (dict keys, set items).
    """
    __slots__ = ("t", "cls")

    def __init__(self, t, cls=None):
        self.t = t
        self.cls = cls

    def __repr__(self):
        return f"SV({self.t}:{self.cls})"


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("Ref", self.oid))

    def __repr__(self):
        return f"Ref({self.oid})"


class Ext:
    """A name from outside the code base (builtins, stdlib, third party)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return f"Ext({self.name})"


class Mod:
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod


class Fn:
    """A Python function of the code base (or a lambda), with its closure frames."""
    __slots__ = ("node", "mod", "frames", "defaults", "kwdefaults", "qual", "owner", "deco", "uid")
    _uids = itertools.count(1)

    def __init__(self, node, mod, frames, defaults, kwdefaults, qual, owner=None, deco=()):
        self.node, self.mod, self.frames = node, mod, frames
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qual, self.owner, self.deco = qual, owner, deco
        self.uid = next(Fn._uids)

    def __repr__(self):
        return f"Fn({self.qual})"


class BM:
    """Bound method."""
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"BM({self.fn},{self.self_})"


class Partial:
    __slots__ = ("fn", "args", "kw", "star", "kwstar")

    def __init__(self, fn, args, kw, star=None, kwstar=None):
        self.fn, self.args, self.kw, self.star, self.kwstar = fn, args, kw, star, kwstar


class Slice:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Super:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Poison:
    """Value of a variable whose content is unknown to the verifier."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class Unbound:
    pass


UNBOUND = Unbound()


def zlen(n):
    return z3.IntVal(n) if isinstance(n, int) else n


def simp(t):
    return z3.simplify(t)


def is_lit(t):
    """Python literal of a z3 int/bool term, or None."""
    if isinstance(t, (int, bool)):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


class Seq:
    """Immutable sequence: `n` (int or z3 Int) and `at(k)` for a z3 Int (or int) index.

    `items` is the list of values when the sequence is fully concrete.
    `note` carries structure the loop rule uses (e.g. ("append", base, elem)).
    """
    __slots__ = ("n", "_at", "items", "note", "kind")

    def __init__(self, n, at=None, items=None, note=None, kind=None):
        self.n, self._at, self.items, self.note, self.kind = n, at, items, note, kind

    @staticmethod
    def of(items):
        items = list(items)
        return Seq(len(items), None, items)

    def zn(self):
        return zlen(self.n)

    def at(self, k):
        if self.items is not None:
            lit = k if isinstance(k, int) else is_lit(k)
            if lit is not None:
                if 0 <= lit < len(self.items):
                    return self.items[lit]
                if not self.items:
                    return SV(z3.Const("oob", V))
                return self.items[0 if lit < 0 else -1]
            if not self.items:
                return SV(z3.Const("oob", V))
            r = self.items[-1]
            for j in range(len(self.items) - 2, -1, -1):
                r = ite(zlen(k) == j, self.items[j], r)
            return r
        return self._at(zlen(k))

    def __repr__(self):
        return f"Seq(n={self.n},items={self.items})"


_interned: dict = {}
_interned_rev: dict = {}


def intern_id(key):
    if key not in _interned:
        _interned[key] = len(_interned) + 1
        _interned_rev[_interned[key]] = key
    return _interned[key]


def to_term(v):
    """Encode a value as a term of sort V."""
    if isinstance(v, SV):
        return v.t
    if v is None:
        return V.none
    if isinstance(v, bool):
        return V.vbool(z3.BoolVal(v))
    if isinstance(v, int):
        return V.vint(z3.IntVal(v))
    if isinstance(v, SInt):
        return V.vint(v.t)
    if isinstance(v, SBool):
        return V.vbool(v.t)
    if isinstance(v, (str, bytes, float)):
        return V.vstr(z3.IntVal(intern_id((type(v).__name__, v))))
    if isinstance(v, Ref):
        return V.vobj(z3.IntVal(v.oid))
    if isinstance(v, Ext):
        return V.vobj(z3.IntVal(-intern_id(("ext", v.name))))
    if isinstance(v, Fn):
        return V.vobj(z3.IntVal(-intern_id(("fn", v.uid))))
    if isinstance(v, BM):
        return V.vobj(z3.IntVal(-intern_id(("bm", _bm_key(v)))))
    if type(v).__name__ == "ClassInfo":
        return V.vobj(z3.IntVal(-intern_id(("class", v.qual))))
    if isinstance(v, tuple):
        # canonical tuples: equal components <=> equal terms (via an injective constructor)
        return tup_term([to_term(x) for x in v])
    if isinstance(v, Seq) and v.items is not None:
        return tup_term([to_term(x) for x in v.items])
    if isinstance(v, Seq):
        # a tuple of unknown length: a constant of its own (nothing is known about its identity)
        if id(v) not in _seqt:
            c = z3.Const(f"seqt!{len(_seqt)}", V)
            _seqt[id(v)] = (v, c)
            _seqr[c.decl().name()] = v
        return _seqt[id(v)][1]
    if hasattr(v, "term"):
        return v.term()
    raise Unsupported(f"cannot encode {v!r} as a term")


_seqt: dict[int, tuple] = {}
_seqr: dict[str, object] = {}


def _bm_key(b):
    fn = b.fn
    return (fn.uid if isinstance(fn, Fn) else repr(fn), repr(b.self_))


_tupf: dict[int, object] = {}
_tupi: dict[tuple, object] = {}


def tup_term(ts):
    """Tuples as applications of an (injective) uninterpreted function: injectivity is supplied
    by `tuple_facts`, instantiated for each tuple term built."""
    k = len(ts)
    if k not in _tupf:
        _tupf[k] = z3.Function(f"tup{k}", *([V] * k), V) if k else z3.Const("tup0", V)
        for j in range(k):
            _tupi[(k, j)] = z3.Function(f"tup{k}_{j}", V, V)
    return _tupf[k](*ts) if k else _tupf[0]


def tuple_facts(terms):
    """the axioms below, instantiated for the tuples that occur in quantifier-free position; None if one occurs
    under a quantifier with its variable"""
    apps, seen, stack = {}, set(), list(terms)
    names = {f"tup{k}": k for k in _tupf}
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if loops_syms(x.body()) & names.keys():
                return None
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            apps[x.get_id()] = (names[x.decl().name()], x)
        stack.extend(x.children())
    ax = [_tupi[(k, j)](x) == x.arg(j) for k, x in apps.values() for j in range(k)]
    ax += [z3.Not(z3.Or(x == V.none, V.is_vbool(x), V.is_vint(x), V.is_vstr(x))) for _, x in apps.values()]
    if len({k for k, _ in apps.values()}) > 1:
        ln = z3.Function("tuple_len", V, z3.IntSort())
        ax += [ln(x) == k for k, x in apps.values()]
    return ax


def loops_syms(t):
    from .loops import syms
    return syms(t)


def tuple_axioms(used=None):
    """used: names of the symbols occurring in the query (axioms about other symbols are irrelevant:
    each only says that a constructor is injective)"""
    ax = []
    for k, f in _tupf.items():
        if k == 0 or used is not None and f"tup{k}" not in used:
            continue
        xs = [z3.Const(f"tx{j}", V) for j in range(k)]
        app = f(*xs)
        ax.append(z3.ForAll(xs, z3.And(*[_tupi[(k, j)](app) == xs[j] for j in range(k)]),
                            patterns=[app]))
    ks = [k for k in _tupf if used is None or f"tup{k}" in used]
    if len(ks) > 1:       # tuples of different lengths differ
        ln = z3.Function("tuple_len", V, z3.IntSort())
        for k in ks:
            xs = [z3.Const(f"tx{j}", V) for j in range(k)]
            ax.append(z3.ForAll(xs, ln(_tupf[k](*xs)) == k, patterns=[_tupf[k](*xs)]) if k else ln(_tupf[0]) == 0)
    return ax


def from_term(t, hint=None):
    """Decode a term using a kind hint: 'int', 'bool', a ClassInfo/tag, or None."""
    if hint == "int":
        return SInt(V.vi(t))
    if hint == "bool":
        return SBool(V.vb(t))
    s = z3.simplify(t)
    if z3.is_app(s):
        d = s.decl().name()
        if d == "none":
            return None
        if d == "vint":
            c = s.arg(0)
            return c.as_long() if z3.is_int_value(c) else SInt(c)
        if d == "vbool":
            c = s.arg(0)
            return True if z3.is_true(c) else False if z3.is_false(c) else SBool(c)
        if d == "vstr" and z3.is_int_value(s.arg(0)):
            return _interned_rev[s.arg(0).as_long()][1]
        if d == "vobj" and z3.is_int_value(s.arg(0)) and s.arg(0).as_long() >= 0:
            return Ref(s.arg(0).as_long())
        if d in _seqr:
            return _seqr[d]
    return SV(t, hint)


def _cls_of(v):
    return v.cls if isinstance(v, SV) else None


def ite(c, a, b):
    """Value-level if-then-else on a z3 condition."""
    if isinstance(c, bool):
        return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    ia, ib = isinstance(a, (int, SInt)) and not isinstance(a, bool), \
        isinstance(b, (int, SInt)) and not isinstance(b, bool)
    if ia and ib:
        return SInt(z3.If(c, zi(a), zi(b)))
    ba, bb = isinstance(a, (bool, SBool)), isinstance(b, (bool, SBool))
    if ba and bb:
        return SBool(z3.If(c, zb(a), zb(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(z3.If(c, a.zn(), b.zn()), lambda k: ite(c, a.at(k), b.at(k)))
    ca, cb = _cls_of(a), _cls_of(b)
    cls = ca if ca == cb else (ca or cb) if (a is None or b is None) else None
    if isinstance(a, Ref) or isinstance(b, Ref):
        cls = None
    return from_term(z3.If(c, to_term(a), to_term(b)), cls)


def zi(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, SV):
        return V.vi(v.t)
    raise Unsupported(f"not an int: {v!r}")


def zb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.t
    raise Unsupported(f"not a bool: {v!r}")


def mkint(t):
    lit = is_lit(t)
    return lit if lit is not None else SInt(z3.simplify(t))


def mkbool(t):
    if isinstance(t, bool):
        return t
    lit = is_lit(t)
    return lit if lit is not None else SBool(z3.simplify(t))


# ----------------------------------------------------------------- sequence operations

def seq_len(s):
    return s.n if isinstance(s.n, int) else mkint(s.n)


def clamp(i, lo, hi):
    i, lo, hi = zlen(i), zlen(lo), zlen(hi)
    return z3.simplify(z3.If(i < lo, lo, z3.If(i > hi, hi, i)))


def seq_append(s, v):
    if s.items is not None:
        return Seq(len(s.items) + 1, None, s.items + [v], note=("append", s, v))
    n = s.zn()
    return Seq(z3.simplify(n + 1), lambda k: ite(k < n, s.at(k), v), note=("append", s, v))


def seq_insert(s, i, v):
    """list.insert semantics; i already an int / z3 Int."""
    li = is_lit(zlen(i))
    if s.items is not None and li is not None:
        items = list(s.items)
        items.insert(li, v)
        return Seq(len(items), None, items)
    n = s.zn()
    i = zlen(i)
    p = clamp(z3.If(i < 0, i + n, i), 0, n)
    pl = is_lit(p == n)
    if pl is True:
        return seq_append(s, v)
    return Seq(z3.simplify(n + 1),
               lambda k: ite(k < p, s.at(k), ite(k == p, v, s.at(k - 1))))


def seq_delete(s, p):
    """delete at valid normalised position p"""
    li = is_lit(zlen(p))
    if s.items is not None and li is not None:
        items = list(s.items)
        del items[li]
        return Seq(len(items), None, items)
    n = s.zn()
    p = zlen(p)
    return Seq(z3.simplify(n - 1), lambda k: ite(k < p, s.at(k), s.at(k + 1)))


def seq_set(s, p, v):
    li = is_lit(zlen(p))
    if s.items is not None and li is not None:
        items = list(s.items)
        items[li] = v
        return Seq(len(items), None, items)
    p = zlen(p)
    return Seq(s.n, lambda k: ite(k == p, v, s.at(k)))


def seq_concat(a, b):
    if a.items is not None and b.items is not None:
        return Seq.of(a.items + b.items)
    if a.items is not None and not a.items:
        return b
    if b.items is not None and not b.items:
        return a
    na = a.zn()
    return Seq(z3.simplify(na + b.zn()), lambda k: ite(k < na, a.at(k), b.at(k - na)), note=("concat", a, b))


def direct_apps(e, k):
    """the applications of uninterpreted functions in e that have the variable k itself as an argument"""
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(k) for c in x.children()):
            out.append(x)
        todo += x.children()
    return out


def seq_parts(s, off=0):
    """[(part, offset)] the sequences s was joined from"""
    if s.items is None and isinstance(s.note, tuple) and s.note and s.note[0] == "concat":
        _, a, b = s.note
        return seq_parts(a, off) + seq_parts(b, off + a.zn())
    return [(s, off)]


def seq_sub(s, lo, n):
    """n elements from lo, step 1 (valid range)"""
    ll, ln = is_lit(zlen(lo)), is_lit(zlen(n))
    if s.items is not None and ll is not None and ln is not None:
        return Seq.of(s.items[ll:ll + ln])
    if ll == 0 and is_lit(zlen(n) == s.zn()) is True:
        return s
    lo = zlen(lo)
    return Seq(z3.simplify(zlen(n)), lambda k: s.at(k + lo))


def seq_step(s, lo, n, step):
    lo, step = zlen(lo), zlen(step)
    return Seq(z3.simplify(zlen(n)), lambda k: s.at(lo + k * step))


def seq_reverse(s):
    if s.items is not None:
        return Seq.of(s.items[::-1])
    n = s.zn()
    return Seq(s.n, lambda k: s.at(n - 1 - k))


def seq_map(s, f):
    if s.items is not None:
        return Seq.of([f(x) for x in s.items])
    return Seq(s.n, lambda k: f(s.at(k)))


def fresh_seq(name="seq", cls=None, hint=None, n=None):
    """Unconstrained symbolic sequence.  Its length constraint (>= 0) must be assumed."""
    f = fresh_fun(name, z3.IntSort(), V)
    n = fresh_int(name + "_len") if n is None else n
    return Seq(n, lambda k: from_term(f(zlen(k)), hint if hint else cls))


# ------------------------------------------------------------------ dict / set payloads

class DictC:
    """dict with concrete (hashable Python-level) keys, in insertion order."""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class DictS:
    """Symbolic dict: membership and value as functions of the key term; keys are atoms.

    `keys` (optional Seq) is its iteration order when known.
    """
    __slots__ = ("has", "val", "n", "keys", "valcls", "pos")

    def __init__(self, has, val, n, keys=None, pos=None):
        self.has, self.val, self.n, self.keys = has, val, n, keys
        self.pos = pos      # with keys: the position of a key in the order (insertion order is then tracked)


class SetS:
    __slots__ = ("has", "n", "keys", "pos")

    def __init__(self, has, n, keys=None, pos=None):
        self.has, self.n, self.keys, self.pos = has, n, keys, pos


class SetC:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class Obj:
    """Immutable heap object."""
    __slots__ = ("cls", "fields", "data", "kind")

    def __init__(self, cls, fields=None, data=None, kind="obj"):
        self.cls, self.fields, self.data, self.kind = cls, fields or {}, data, kind

    def with_field(self, name, val):
        f = dict(self.fields)
        f[name] = val
        return Obj(self.cls, f, self.data, self.kind)

    def without_field(self, name):
        f = dict(self.fields)
        f.pop(name, None)
        return Obj(self.cls, f, self.data, self.kind)

    def with_data(self, data):
        return Obj(self.cls, self.fields, data, self.kind)


ALLOC: dict[int, int] = {}     # oid -> serial number at its allocation


def predates(t, serial):
    """no object allocated at or after `serial` can be the value of term t (of sort V)"""
    if not z3.is_app(t):
        return False
    if t.decl().kind() == z3.Z3_OP_ITE:
        return predates(t.arg(1), serial) and predates(t.arg(2), serial)
    if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return t.decl().name() in ("none", "vint", "vbool", "vstr", "fam")
    if SERIAL.get(t.decl().name(), 0) > serial:
        return False
    if t.num_args() == 0 and t.decl().name() not in SERIAL:
        return False
    return all(predates(a, serial) for a in t.children() if a.sort() == V)


class St:
    """Persistent state of one path."""
    __slots__ = ("heap", "pc", "ghost", "smap", "hist")

    def __init__(self, heap=None, pc=(), ghost=None, smap=None, hist=()):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.ghost = ghost if ghost is not None else {}
        self.smap = smap if smap is not None else {}
        self.hist = hist

    def _c(self, **kw):
        s = St(self.heap, self.pc, self.ghost, self.smap, self.hist)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def assume(self, *conds):
        new = []
        for c in conds:
            if isinstance(c, bool):
                c = z3.BoolVal(c)
            if z3.is_true(c):
                continue
            new.append(c)
        return self._c(pc=self.pc + tuple(new)) if new else self

    def put(self, oid, obj):
        h = dict(self.heap)
        h[oid] = obj
        return self._c(heap=h)

    def setf(self, ref, name, val):
        return self.put(ref.oid, self.heap[ref.oid].with_field(name, val))

    def setd(self, ref, data):
        return self.put(ref.oid, self.heap[ref.oid].with_data(data))

    def obj(self, ref):
        return self.heap[ref.oid]

    def f(self, ref, name):
        return self.heap[ref.oid].fields[name]

    def d(self, ref):
        return self.heap[ref.oid].data

    def g(self, **kw):
        gh = dict(self.ghost)
        gh.update(kw)
        return self._c(ghost=gh)

    def sm(self, attr, fn):
        m = dict(self.smap)
        m[attr] = fn
        return self._c(smap=m)
