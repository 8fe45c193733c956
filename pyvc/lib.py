"""Models of the builtins and standard-library functions the code uses (the trusted base: each is
the documented behaviour of CPython, listed in evidence as an assumption when used)."""
from __future__ import annotations

import ast
import builtins

import z3

from .front import ClassInfo
from .values import (ALLOC, BM, UNBOUND, DictC, DictS, Ext, Fn, Mod, Obj, Partial, Poison, Ref, SBool,
                     Seq, SetC, SetS, SInt, Slice, St, Super, SV, Unbound, Unsupported, V, clamp,
                     fresh_bool, fresh_fun, fresh_int, fresh_seq, fresh_v, from_term, intern_id,
                     is_lit, ite, mkbool, mkint, seq_append, seq_concat, seq_parts, direct_apps, seq_delete, seq_insert,
                     seq_len, seq_reverse, seq_set, seq_step, seq_sub, predates, to_term, zb, zi, zlen)

truthy = z3.Function("truthy", V, z3.BoolSort())
peq = z3.Function("py_eq", V, V, z3.BoolSort())
callable_p = z3.Function("callable", V, z3.BoolSort())
lenf = z3.Function("len_of", V, z3.IntSort())

USED = set()          # names of trusted models used


def ca_cls():
    from .engine import CallArgs
    return CallArgs


_attrf: dict = {}


def attr_fun(name):
    if name not in _attrf:
        _attrf[name] = z3.Function("attr_" + name, V, V)
    return _attrf[name]


# attributes of opaque objects that are a function of the object (not necessarily one-to-one)
PLAIN_ATTRS = {("thread", "ident"): None, ("thread", "native_id"): None, ("thread", "name"): "str",
               ("type", "__module__"): "str", ("type", "__qualname__"): "str", ("type", "__name__"): "str"}

_inst: dict = {}


def inst_pred(name):
    if name not in _inst:
        _inst[name] = z3.Function("isinst_" + name, V, z3.BoolSort())
    return _inst[name]


def as_int(E, st, v):
    """an opaque value known to be an int on this path"""
    if isinstance(v, SV) and isinstance(v.cls, str) and v.cls != "int":
        h = E.schema.get((v.cls, "as_int"))
        if h is not None and E.entails(st, h(v.t)):
            return SInt(V.vi(v.t))
    return v


def is_intlike(v):
    return isinstance(v, (int, SInt, SBool)) or (isinstance(v, SV) and v.cls == "int")


# --------------------------------------------------------------------- exceptions

_USER = {"user.Exception": "builtins.Exception", "user.BaseException": "builtins.BaseException"}


def exc_class(name):
    if name in _USER:
        return True
    if name.startswith("builtins."):
        c = getattr(builtins, name[9:], None)
        return isinstance(c, type) and issubclass(c, BaseException)
    return name in ("queue.Empty",)


def ext_bases(name):
    out = [name]
    if name in _USER:
        name = _USER[name]
        out.append(name)
    if name.startswith("builtins."):
        c = getattr(builtins, name[9:], None)
        if isinstance(c, type):
            out += ["builtins." + b.__name__ for b in c.__mro__]
    return out


USER_EXCS = ("builtins.RecursionError", "psygnal.EmitLoopError", "user.Exception", "user.BaseException")


def cls_names(c):
    """all class names (qualified) in the MRO of a class value"""
    if isinstance(c, ClassInfo):
        out = set()
        for k in c.mro():
            if isinstance(k, ClassInfo):
                out.add(k.qual)
            else:
                out.update(ext_bases(k if "." in k else "builtins." + k))
        return out
    if isinstance(c, Ext):
        return set(ext_bases(c.name))
    raise Unsupported(f"class {c!r}")


def cls_isa(c, target):
    t = target.qual if isinstance(target, ClassInfo) else target.name
    if t == "psygnal.EmitLoopError":
        t = "psygnal._exceptions:EmitLoopError"
    return t in cls_names(c) or t == "builtins.object"


def ext_has_attr(k, name):
    base = k.split(".")[-1]
    if k.startswith("builtins.") and hasattr(builtins, base):
        c = getattr(builtins, base)
        if base in ("list", "dict", "set", "tuple", "Exception", "BaseException", "ValueError"):
            return hasattr(c, name) and not hasattr(object, name)
        return False
    if (k, name) in EXT_BASE:
        return True
    return False


EXT_BASE: dict = {}        # (ext class name, attr) -> prim name


def ext_base_attr(E, st, v, owner, name):
    p = EXT_BASE.get((owner, name))
    if p is not None:
        return BM(Ext(p), v)
    if isinstance(owner, str) and exc_class(owner if "." in owner else "builtins." + owner) and f"exc.{name}" in PRIMS:
        return BM(Ext(f"exc.{name}"), v)
    return None


def ext_setattr(E, st, o, owner, name, v, ctx):
    p = EXT_BASE.get((owner, "__setattr__"))
    if p is not None:
        return [s for s, _ in E.call(st, BM(Ext(p), o), ca_cls()([name, v]), ctx)]
    return None


def object_attr(E, st, v, name):
    if name in ("__init__", "__init_subclass__"):
        return BM(Ext("object.__init__"), v)
    if name == "__setattr__":
        return BM(Ext("object.__setattr__"), v)
    if name == "__repr__":
        return BM(Ext("object.__repr__"), v)
    if name == "__eq__":
        return BM(Ext("object.__eq__"), v)
    return None


# --------------------------------------------------------------------- equality & identity

def kind(v):
    if v is None:
        return "none"
    if isinstance(v, (bool, SBool)):
        return "bool"
    if isinstance(v, (int, SInt)):
        return "int"
    if isinstance(v, (str, bytes, float)):
        return "str"
    if isinstance(v, (tuple, Seq)):
        return "tuple"
    if isinstance(v, (Ref, Ext, Fn, BM, ClassInfo, Mod, Partial, Slice, Super)):
        return "obj"
    if isinstance(v, SV):
        return "sv"
    return "?"


def ident(E, st, a, b):
    if a is b:
        return True
    ka, kb = kind(a), kind(b)
    if "sv" in (ka, kb):
        x, y = (a, b) if ka == "sv" else (b, a)
        ky = kind(y)
        if ky == "tuple":
            return SV_tuple_ident(x, y)
        if isinstance(x.cls, ClassInfo) and y is None:
            return to_term(x) == V.none
        if isinstance(x.cls, ClassInfo) and ky in ("bool", "int", "str"):
            return False
        if ky == "obj" and not isinstance(y, (Ref, Ext, Fn, BM, ClassInfo)):
            return False
        if isinstance(y, ClassInfo):
            return x.t == cls_term(y)
        if isinstance(y, Ref) and isinstance(y.oid, int) and y.oid in ALLOC and predates(x.t, ALLOC[y.oid]):
            return False
        return x.t == to_term(y)
    if ka != kb:
        return False
    if ka == "none":
        return True
    if ka in ("bool",):
        return zb(a) == zb(b) if not (isinstance(a, bool) and isinstance(b, bool)) else a == b
    if ka == "int":
        if isinstance(a, int) and isinstance(b, int):
            return a == b and -5 <= a <= 256 or (a is b)
        c = fresh_bool("same_int")
        return z3.And(c, zi(a) == zi(b))
    if ka == "str":
        return type(a) is type(b) and a == b
    if ka == "obj":
        if isinstance(a, (ClassInfo, Fn)) or isinstance(b, (ClassInfo, Fn)):
            return a is b
        if isinstance(a, BM) or isinstance(b, BM):
            if isinstance(a, BM) and isinstance(b, BM):
                return False if a is not b else True     # bound methods are created afresh
            return False
        return a == b
    if ka == "tuple":
        if isinstance(a, tuple) and isinstance(b, tuple) and not a and not b:
            return True
        return False
    raise Unsupported("identity")


def SV_tuple_ident(x, y):
    return fresh_bool("tuple_is")


def cls_term(c):
    return V.vobj(z3.IntVal(-intern_id(("class", c.qual))))


ATOM_TAGS = {"atom", "str", "type", "thread"}


def equal_basic(E, st, a, b):
    """z3/py bool, or None when a user __eq__ or uninterpreted equality must be consulted"""
    if a is b and not isinstance(a, float):
        return True
    ka, kb = kind(a), kind(b)
    if ka == "int" and kb == "bool":
        return equal_basic(E, st, a, SInt(zi(b)))
    if ka == "bool" and kb == "int":
        return equal_basic(E, st, SInt(zi(a)), b)
    if "sv" not in (ka, kb):
        if ka != kb:
            if "obj" in (ka, kb):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Ref):
                        o = st.obj(x)
                        if isinstance(o.cls, ClassInfo) and E.class_attr_fn(st, x, "__eq__"):
                            return None
                        if o.kind in ("list", "deque", "dict", "set"):
                            return False
                        return False
                return False
            return False
        if ka == "none":
            return True
        if ka == "bool":
            return zb(a) == zb(b) if not (isinstance(a, bool) and isinstance(b, bool)) else a == b
        if ka == "int":
            return a == b if isinstance(a, int) and isinstance(b, int) else zi(a) == zi(b)
        if ka == "str":
            return a == b
        if ka == "tuple":
            return seq_equal(E, st, a, b)
        if ka == "obj":
            for x in (a, b):
                if isinstance(x, Ref) and isinstance(st.obj(x).cls, ClassInfo) and E.class_attr_fn(st, x, "__eq__"):
                    return None
            if isinstance(a, Ref) and isinstance(b, Ref):
                oa, ob = st.obj(a), st.obj(b)
                if oa.kind in ("list", "deque") and ob.kind == oa.kind:
                    return seq_equal(E, st, oa.data, ob.data)
                if oa.kind in ("dict", "set") and ob.kind == oa.kind:
                    return a == b or fresh_bool("eq_container")
                return a == b
            if isinstance(a, BM) and isinstance(b, BM):
                if a.fn is b.fn or (isinstance(a.fn, Ext) and a.fn == b.fn):
                    return ident(E, st, a.self_, b.self_)
                return False
            if isinstance(a, (ClassInfo, Fn)) or isinstance(b, (ClassInfo, Fn)):
                return a is b
            return a == b
        return None
    # at least one SV
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SV):
            if isinstance(x.cls, ClassInfo) and E.class_attr_fn(st, x, "__eq__"):
                return None
            if isinstance(x.cls, str) and x.cls in ATOM_TAGS and kind(y) != "tuple":
                return x.t == (cls_term(y) if isinstance(y, ClassInfo) else to_term(y))
            if x.cls == "int" and is_intlike(y):
                return zi(x) == zi(y)
    if ka == "none" or kb == "none":
        x = a if kb == "none" else b
        if isinstance(x.cls, ClassInfo):
            return x.t == V.none
    return None


def equal_opaque(E, st, a, b):
    """uninterpreted equality, with identity implying it"""
    ta = cls_term(a) if isinstance(a, ClassInfo) else to_term(a)
    tb = cls_term(b) if isinstance(b, ClassInfo) else to_term(b)
    return z3.Or(ta == tb, peq(ta, tb))


def seq_equal(E, st, a, b):
    a = Seq.of(a) if isinstance(a, tuple) else a
    b = Seq.of(b) if isinstance(b, tuple) else b
    if a.items is not None and b.items is not None:
        if len(a.items) != len(b.items):
            return False
        cs = []
        for x, y in zip(a.items, b.items):
            c = equal_basic(E, st, x, y)
            if c is None:
                c = equal_opaque(E, st, x, y)
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        return z3.And(*cs) if cs else True
    lit = is_lit(a.zn() == b.zn())
    if lit is False:
        return False
    if lit is True:
        for s, o in ((a, b), (b, a)):
            if is_lit(s.zn()) == 0:
                return True
    k = z3.Int("k_eq")
    x, y = a.at(k), b.at(k)
    c = equal_basic(E, st, x, y)
    if c is None:
        c = equal_opaque(E, st, x, y)
    if isinstance(c, bool):
        c = z3.BoolVal(c)
    return z3.And(a.zn() == b.zn(), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a.zn()), c)))


def same(E, st, a, b, st2=None, depth=0):
    """Goal-side identity of values (used only in positions to be proved)."""
    st2 = st2 or st
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("comparison with a value unknown to the verifier")
    ka, kb = kind(a), kind(b)
    if ka == "tuple" and kb == "tuple":
        return same_seq(E, st, a, b, st2, depth)
    if ka == "int" and kb == "int" or ka == "bool" and kb == "int" or ka == "int" and kb == "bool":
        return z3.simplify(zi(a) == zi(b))
    if ka == "bool" and kb == "bool":
        return z3.simplify(zb(a) == zb(b))
    if "sv" in (ka, kb) or ka == kb:
        if isinstance(a, Ref) and isinstance(b, Ref):
            return z3.BoolVal(a == b)
        if isinstance(a, (ClassInfo,)) or isinstance(b, ClassInfo):
            ta = cls_term(a) if isinstance(a, ClassInfo) else to_term(a)
            tb = cls_term(b) if isinstance(b, ClassInfo) else to_term(b)
            return ta == tb
        if isinstance(a, Slice) and isinstance(b, Slice):
            return z3.And(*[same(E, st, getattr(a, x), getattr(b, x)) for x in ("lo", "hi", "step")])
        if isinstance(a, Partial) and isinstance(b, Partial):
            return z3.And(same(E, st, a.fn, b.fn), same(E, st, tuple(a.args), tuple(b.args)))
        try:
            return z3.simplify(to_term(a) == to_term(b))
        except Unsupported:
            if ka == "tuple" or kb == "tuple":
                return z3.BoolVal(False)
            raise
    return z3.BoolVal(False)


def same_seq(E, st, a, b, st2=None, depth=0):
    a = Seq.of(a) if isinstance(a, tuple) else a
    b = Seq.of(b) if isinstance(b, tuple) else b
    if a.items is not None and b.items is not None:
        if len(a.items) != len(b.items):
            return z3.BoolVal(False)
        return z3.And(*[same(E, st, x, y, st2, depth) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
    j = fresh_int("j")
    lit = is_lit(a.zn() == b.zn())
    if lit is False:
        return z3.BoolVal(False)
    return z3.And(a.zn() == b.zn(),
                  z3.Implies(z3.And(0 <= j, j < a.zn()), same(E, st, a.at(j), b.at(j), st2, depth)))


# --------------------------------------------------------------------- truth

def truth_basic(E, st, v):
    if v is None:
        return False
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float, str, bytes)):
        return bool(v)
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, SInt):
        return v.t != 0
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, Seq):
        return v.n > 0 if isinstance(v.n, int) else v.n > 0
    if isinstance(v, (Fn, BM, Ext, ClassInfo, Mod, Partial)):
        return True
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind in ("list", "deque"):
            n = o.data.n
            return n > 0
        if o.kind == "dict":
            return len(o.data.d) > 0 if isinstance(o.data, DictC) else o.data.n > 0
        if o.kind == "set":
            return len(o.data.items) > 0 if isinstance(o.data, SetC) else o.data.n > 0
        if isinstance(o.cls, ClassInfo):
            return None
        return True
    if isinstance(v, SV):
        if isinstance(v.cls, ClassInfo):
            if E.class_lookup(v.cls, "__bool__") or E.class_lookup(v.cls, "__len__"):
                return None
            return v.t != V.none
        if v.cls == "list" or v.cls == "tuple":
            return z3.And(v.t != V.none, lenf(v.t) > 0)
        if v.cls == "int":
            return V.vi(v.t) != 0
        t = v.t
        return z3.If(t == V.none, z3.BoolVal(False),
                     z3.If(V.is_vbool(t), V.vb(t), z3.If(V.is_vint(t), V.vi(t) != 0, truthy(t))))
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    return True


# --------------------------------------------------------------------- sequences / iteration

def iterate(E, st, v, ctx):
    """-> [(st, Seq)] snapshot of an iterable"""
    if isinstance(v, Seq):
        return [(st, v)]
    if isinstance(v, tuple):
        return [(st, Seq.of(v))]
    if isinstance(v, str):
        return [(st, Seq.of(list(v)))]
    if isinstance(v, FiltSeq):
        raise Unsupported("iteration over a filtered comprehension")
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind in ("list", "deque", "namedtuple"):
            return [(st, o.data)]
        if o.kind == "dict":
            return [dict_keys_seq(E, st, v)]
        if o.kind == "set":
            return [set_keys_seq(E, st, v)]
        if o.kind == "iter":
            # consuming an iterator: the rest
            pos, sq = o.fields["pos"], o.data
            s2 = st.put(v.oid, o.with_field("pos", SInt(sq.zn()) if not isinstance(sq.n, int) else sq.n))
            if isinstance(pos, int) and pos == 0:
                return [(s2, sq)]
            if sq.items is not None and isinstance(pos, int):
                return [(s2, Seq.of(sq.items[pos:]))]
            return [(s2, seq_sub(sq, zi(pos), sq.zn() - zi(pos)))]
        f = E.class_attr_fn(st, v, "__iter__")
        if f is not None:
            out = []
            for s, it in E.call(st, BM(f, v), ca_cls()([]), ctx):
                out += iterate(E, s, it, ctx)
            return out
        fl = E.class_attr_fn(st, v, "__getitem__")
        raise Unsupported(f"iteration over {o.cls}")
    if isinstance(v, SV):
        if isinstance(v.cls, ClassInfo):
            f = E.class_attr_fn(st, v, "__iter__")
            if f is not None:
                out = []
                for s, it in E.call(st, BM(f, v), ca_cls()([]), ctx):
                    out += iterate(E, s, it, ctx)
                return out
        h = E.schema.get((v.cls, "iter")) if isinstance(v.cls, str) else None
        if h is not None:
            return h(E, st, v, ctx)
        if v.cls in ("list", "tuple", "iterable"):
            it = z3.Function("item_of", V, z3.IntSort(), V)
            return [(st.assume(lenf(v.t) >= 0), Seq(lenf(v.t), lambda k: from_term(it(v.t, zlen(k)))))]
    raise Unsupported(f"iteration over {v!r}")


class FiltSeq:
    """A comprehension `elt for x in src if cond`, kept symbolic: consumed only by set-building."""
    __slots__ = ("src", "cond", "elt")

    def __init__(self, src, cond, elt):
        self.src, self.cond, self.elt = src, cond, elt


def filtered_comp(E, n, st, ctx):
    return None


# --------------------------------------------------------------------- dict / set payloads

def dkey(v):
    """Python-hashable key of a concrete value, or None"""
    if v is None or isinstance(v, (bool, int, str, float, bytes, Ref, Ext, ClassInfo, Fn)):
        return v
    if isinstance(v, tuple):
        ks = tuple(dkey(x) for x in v)
        return None if any(k is None and x is not None for k, x in zip(ks, v)) else ks
    if isinstance(v, SV) and v.cls in ("atom", "str") and is_lit_term(v.t):
        return None
    return None


def is_lit_term(t):
    return False


def is_ckey(v):
    return v is None or dkey(v) is not None


def dict_payload(E, st, v):
    if isinstance(v, (DictC, DictS)):
        return v
    if isinstance(v, Ref) and st.obj(v).kind in ("dict", "mapproxy"):
        d = st.obj(v).data
        return d
    raise Unsupported(f"** of {v!r}")


def dict_to_s(E, d):
    if isinstance(d, DictS):
        return d
    items = list(d.d.items())

    def has(t):
        return z3.Or(*[t == key_term(k) for k, _ in items]) if items else z3.BoolVal(False)

    def val(t):
        r = SV(V.none)
        r = None
        for i, (k, v) in enumerate(items):
            r = v if i == 0 else ite(t == key_term(k), v, r)
        return r
    def pos(t):
        r = z3.IntVal(0)
        for i, (k, _) in reversed(list(enumerate(items))):
            r = z3.If(t == key_term(k), z3.IntVal(i), r)
        return r
    return DictS(has, val, z3.IntVal(len(items)), Seq.of([k for k, _ in items]), pos)


def key_term(k):
    if isinstance(k, ClassInfo):
        return cls_term(k)
    return to_term(k)


def dict_set(E, st, d, k, v):
    if isinstance(d, DictC) and is_ckey(k):
        nd = dict(d.d)
        nd[k] = v
        return DictC(nd)
    d = dict_to_s(E, d)
    kt = key_term(k)
    has, val = d.has, d.val
    keys = None
    lit = is_lit(z3.simplify(has(kt)))
    if d.keys is not None:
        ks = d.keys
        if lit is False:
            keys = seq_append(ks, k)
        elif lit is True:
            keys = ks
        else:
            keys = Seq(z3.If(has(kt), ks.zn(), ks.zn() + 1), lambda j: ite(j < ks.zn(), ks.at(j), k))
    pos = None
    if d.pos is not None:
        p0, n0 = d.pos, d.n
        pos = lambda t: z3.If(z3.And(t == kt, z3.Not(has(kt))), zlen(n0), p0(t))
    nd = DictS(lambda t: z3.Or(t == kt, has(t)), lambda t: ite(t == kt, v, val(t)),
               z3.simplify(z3.If(has(kt), d.n, d.n + 1)), keys, pos)
    return nd


def dict_del(E, st, d, k):
    """k known to be present"""
    if isinstance(d, DictC) and is_ckey(k):
        nd = dict(d.d)
        nd.pop(k)
        return DictC(nd)
    d = dict_to_s(E, d)
    kt = key_term(k)
    has, val = d.has, d.val
    keys = pos = None
    if d.pos is not None:
        p0, p = d.pos, z3.simplify(d.pos(kt))
        keys = seq_delete(d.keys, p)
        pos = lambda t: z3.If(p0(t) > p, p0(t) - 1, p0(t))
    return DictS(lambda t: z3.And(t != kt, has(t)), val, z3.simplify(d.n - 1), keys, pos)


def dict_has(E, st, d, k):
    if isinstance(d, DictC):
        if is_ckey(k):
            return k in d.d
        cs = [to_key_eq(k, x) for x in d.d]
        return z3.Or(*cs) if cs else False
    return d.has(key_term(k))


def to_key_eq(a, b):
    return key_term(a) == key_term(b)


def dict_val(E, st, d, k):
    if isinstance(d, DictC) and is_ckey(k):
        return d.d[k]
    return dict_to_s(E, d).val(key_term(k))


def dict_merge(E, st, a, b):
    if isinstance(b, DictC):
        for k, v in b.d.items():
            a = dict_set(E, st, a, k, v)
        return a
    if isinstance(a, DictC) and not a.d:
        return b
    a, b2 = dict_to_s(E, a), b
    return DictS(lambda t: z3.Or(a.has(t), b2.has(t)), lambda t: ite(b2.has(t), b2.val(t), a.val(t)),
                 fresh_int("merged_n"))


def keys_order(st, has, n, name="keys"):
    """Iteration order of a symbolic dict/set: an enumeration of exactly the members."""
    f = fresh_fun(name, z3.IntSort(), V)
    idx = fresh_fun(name + "_idx", V, z3.IntSort())
    k = z3.Int("k_ord")
    x = z3.Const("x_ord", V)
    st = st.assume(
        n >= 0,
        z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(has(f(k)), idx(f(k)) == k)), patterns=[f(k)]),
        z3.ForAll([x], z3.Implies(has(x), z3.And(0 <= idx(x), idx(x) < n, f(idx(x)) == x)), patterns=[idx(x)]))
    return st, f, idx


def dict_keys_seq(E, st, ref):
    o = st.obj(ref)
    d = o.data
    if isinstance(d, DictC):
        return st, Seq.of(list(d.d))
    if d.keys is not None:
        return st, d.keys
    st, f, idx = keys_order(st, d.has, d.n)
    hint = E.schema.get(("keyhint", ref.oid), "atom")
    sq = Seq(d.n, lambda k: from_term(f(zlen(k)), hint))
    st = st.put(ref.oid, o.with_data(DictS(d.has, d.val, d.n, sq)))
    return st, sq


def set_keys_seq(E, st, ref):
    o = st.obj(ref)
    d = o.data
    if isinstance(d, SetC):
        return st, Seq.of(list(d.items))
    if d.keys is not None:
        return st, d.keys
    st, f, idx = keys_order(st, d.has, d.n)
    hint = E.schema.get("setelem", "atom")
    sq = Seq(d.n, lambda k: from_term(f(zlen(k)), hint))
    st = st.put(ref.oid, o.with_data(SetS(d.has, d.n, sq, lambda t: idx(t))))
    return st, sq


def set_to_s(d):
    if isinstance(d, SetS):
        return d
    items = list(d.items)
    return SetS(lambda t: z3.Or(*[t == key_term(x) for x in items]) if items else z3.BoolVal(False),
                z3.IntVal(len(items)), Seq.of(items))


def set_has(d, v):
    if isinstance(d, SetC) and is_ckey(v):
        if any((v is x) or (is_ckey(x) and type(x) == type(v) and x == v) for x in d.items):
            return True
        if all(is_ckey(x) for x in d.items):
            return False
    d = set_to_s(d)
    return d.has(key_term(v))


def set_add(d, v):
    h = set_has(d, v)
    h = is_lit(h) if not isinstance(h, bool) else h
    if isinstance(d, SetC) and h is not None:
        return d if h else SetC(tuple(d.items) + (v,))
    d = set_to_s(d)
    vt = key_term(v)
    has = d.has
    return SetS(lambda t: z3.Or(t == vt, has(t)), z3.simplify(z3.If(has(vt), d.n, d.n + 1)))


def fresh_dict(st, name="d", valcls=None, keycls="atom"):
    """an arbitrary dict with its insertion order"""
    has, val = fresh_fun(name + "_has", V, z3.BoolSort()), fresh_fun(name + "_val", V, V)
    n = fresh_int(name + "_n")
    st, f, idx = keys_order(st, lambda t: has(t), n, name + "_keys")
    d = DictS(lambda t: has(t), lambda t: SV(val(t), valcls), n, Seq(n, lambda k: from_term(f(zlen(k)), keycls)), lambda t: idx(t))
    if valcls in OBJECT_TAGS:      # values that are objects of a class of their own: not None, no number, no string
        x = z3.Const("x_val", V)
        st = st.assume(z3.ForAll([x], is_object(val(x)), patterns=[val(x)]))
    return st, d


OBJECT_TAGS = {"eqop", "opmap", "group", "groupcls", "property"}


def is_object(t):
    return z3.Not(z3.Or(t == V.none, V.is_vbool(t), V.is_vint(t), V.is_vstr(t)))


class DictRec:
    """dicts D(0), D(1), ... defined by D(0) = d0 and D(m+1) = step(D(m), m)"""

    def __init__(self, d0, step, name="D"):
        I = z3.IntSort()
        self.d0, self.step = d0, step
        H, VL = fresh_fun(name + "_has", I, V, z3.BoolSort()), fresh_fun(name + "_val", I, V, V)
        N, K, P = fresh_fun(name + "_n", I, I), fresh_fun(name + "_key", I, I, V), fresh_fun(name + "_pos", I, V, I)
        self.fs = (H, VL, N, K, P)
        like = d0.val(fresh_v("probe"))
        self.vcls = like.cls if isinstance(like, SV) else None
        kl = d0.keys.at(fresh_int("probe")) if d0.keys is not None else None
        self.kcls = kl.cls if isinstance(kl, SV) else "atom"

    def at(self, m):
        H, VL, N, K, P = self.fs
        m = zlen(m)
        keys = Seq(N(m), lambda j: from_term(K(m, zlen(j)), self.kcls)) if self.d0.pos is not None else None
        return DictS(lambda t: H(m, t), lambda t: SV(VL(m, t), self.vcls), N(m), keys, (lambda t: P(m, t)) if keys is not None else None)

    def _eq(self, a, m):
        H, VL, N, K, P = self.fs
        t, j = z3.Const("t_rec", V), z3.Int("j_rec")
        out = [z3.ForAll([t], H(m, t) == a.has(t), patterns=[H(m, t)]),
               z3.ForAll([t], VL(m, t) == to_term(a.val(t)), patterns=[VL(m, t)]), N(m) == a.n]
        if a.pos is not None:
            out += [z3.ForAll([j], K(m, j) == to_term(a.keys.at(j)), patterns=[K(m, j)]),
                    z3.ForAll([t], P(m, t) == a.pos(t), patterns=[P(m, t)])]
        return out

    def base(self):
        return self._eq(self.d0, z3.IntVal(0))

    def facts(self, m):
        m = zlen(m)
        return self._eq(self.step(self.at(m), m), m + 1)


def set_del(d, v):
    if isinstance(d, SetC) and is_ckey(v) and all(is_ckey(x) for x in d.items):
        return SetC(tuple(x for x in d.items if x != v))
    d = set_to_s(d)
    vt = key_term(v)
    has = d.has
    return SetS(lambda t: z3.And(t != vt, has(t)), z3.simplify(z3.If(has(vt), d.n - 1, d.n)))


def make_set(E, st, v, ctx):
    if isinstance(v, FiltSeq):
        raise Unsupported("set of filtered comprehension")
    out = []
    for s, sq in iterate(E, st, v, ctx) if not isinstance(v, Seq) else [(st, v)]:
        if isinstance(v, Ref) and s.obj(v).kind == "set":
            d = s.obj(v).data
        elif sq.items is not None:
            d = SetC(())
            for x in sq.items:
                d = set_add(d, x)
        else:
            has = fresh_fun("set_has", V, z3.BoolSort())
            wit = fresh_fun("set_wit", V, z3.IntSort())
            k, x = z3.Int("k_set"), z3.Const("x_set", V)
            n = fresh_int("set_n")
            e = to_term(sq.at(k))
            s = s.assume(n >= 0, n <= sq.zn(), z3.Implies(sq.zn() > 0, n > 0),
                         *[z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < part.zn()), has(pe)), **({"patterns": direct_apps(pe, k)} if direct_apps(pe, k) else {}))
                           for part, _ in seq_parts(sq) for pe in [to_term(part.at(k))]],
                         z3.ForAll([x], z3.Implies(has(x), z3.And(0 <= wit(x), wit(x) < sq.zn(),
                                                                    to_term(sq.at(wit(x))) == x)), patterns=[has(x)]))
            d = SetS(lambda t: has(t), n)
        out.append(E.alloc(s, Ext("builtins.set"), data=d, kind="set"))
    return out


# --------------------------------------------------------------------- contains

def contains(E, st, c, x, ctx):
    """x in c -> [(st, bool)]"""
    if isinstance(c, str) and isinstance(x, str):
        return [(st, x in c)]
    if isinstance(c, Ref):
        o = st.obj(c)
        if o.kind in ("dict", "mapproxy"):
            return [(st, dict_has(E, st, o.data, x))]
        if o.kind == "set":
            return [(st, set_has(o.data, x))]
        if o.kind in ("list", "deque", "namedtuple"):
            return seq_contains(E, st, o.data, x, ctx)
        f = E.class_attr_fn(st, c, "__contains__")
        if f is not None:
            out = []
            for s, v in E.call(st, BM(f, c), ca_cls()([x]), ctx):
                out += E.truth(s, v, ctx)
            return out
        if E.class_attr_fn(st, c, "__iter__"):
            out = []
            for s, sq in iterate(E, st, c, ctx):
                out += seq_contains(E, s, sq, x, ctx)
            return out
    if isinstance(c, (tuple, Seq)):
        return seq_contains(E, st, Seq.of(c) if isinstance(c, tuple) else c, x, ctx)
    if isinstance(c, SV):
        if isinstance(c.cls, ClassInfo):
            f = E.class_attr_fn(st, c, "__contains__")
            if f is not None:
                out = []
                for s, v in E.call(st, BM(f, c), ca_cls()([x]), ctx):
                    out += E.truth(s, v, ctx)
                return out
        h = E.schema.get((c.cls, "in")) if isinstance(c.cls, str) else None
        if h is not None:
            return h(E, st, c, x, ctx)
        return [(st, memf(c.t, key_term(x)))]
    if isinstance(c, Ext):
        r = E.schema.get((c.name, "in")) or EXT_CONTAINS.get(c.name)
        if r is not None:
            return r(E, st, c, x, ctx)
    raise Unsupported(f"membership in {c!r}")


EXT_CONTAINS: dict = {}
memf = z3.Function("member", V, V, z3.BoolSort())


def seq_contains(E, st, sq, x, ctx):
    if sq.items is not None:
        outs = [(st, False)]
        cs = []
        s = st
        for y in sq.items:
            c = True if y is x else equal_basic(E, s, y, x)
            if c is None:
                if any(E.class_attr_fn(s, z, "__eq__") for z in (x, y)):
                    r = E.equal(s, y, x, ctx)
                    if len(r) != 1:
                        raise Unsupported("branching __eq__ in membership")
                    s, c = r[0]
                else:
                    c = equal_opaque(E, s, y, x)
            if c is True:
                return [(s, True)]
            if c is not False:
                cs.append(c)
        return [(s, z3.Or(*cs) if cs else False)]
    k = z3.Int("k_in")
    y = sq.at(k)
    c = equal_basic(E, st, y, x)
    if c is None:
        c = equal_opaque(E, st, y, x)
    # skolemised both ways: b <=> exists k
    b = fresh_bool("in")
    w = fresh_int("w_in")
    if isinstance(c, bool):
        c = z3.BoolVal(c)
    cw = z3.substitute(c, (k, w))
    st = st.assume(z3.Implies(b, z3.And(0 <= w, w < sq.zn(), cw)),
                   z3.Implies(z3.Not(b), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < sq.zn()), z3.Not(c)))))
    return [(st, b)]


# --------------------------------------------------------------------- subscripts

def subscriptable_ext(o):
    return isinstance(o, Ext) and o.name in ("os.environ",)


def norm_index(E, st, i, n, ctx, exc="IndexError"):
    """-> [(st, p)] with p the in-range position (z3 or int)"""
    i = as_int(E, st, i)
    if isinstance(i, SV) and not isinstance(i.cls, ClassInfo) and i.cls != "int":
        raise Unsupported("opaque index")
    if isinstance(i, int) and isinstance(n, int):
        if -n <= i < n:
            return [(st, i if i >= 0 else i + n)]
        E.raise_(st, ctx, exc)
        return []
    iz, nz = zi(i), zlen(n)
    out = []
    for s, b in E.split(st, z3.And(-nz <= iz, iz < nz)):
        if b:
            out.append((s, z3.simplify(z3.If(iz < 0, iz + nz, iz))))
        else:
            E.raise_(s, ctx, exc)
    return out


def slice_bounds(E, st, sl, n):
    """start, count for step 1"""
    if sl.step is not None and not (isinstance(sl.step, int) and sl.step == 1):
        raise Unsupported("slice step")
    nz = zlen(n)

    def nb(v, default):
        if v is None:
            return default
        if isinstance(v, SV):
            t = v.t
            x = V.vi(t)
            return z3.If(t == V.none, default, clamp(z3.If(x < 0, x + nz, x), 0, nz))
        x = zi(v)
        return clamp(z3.If(x < 0, x + nz, x), 0, nz)
    lo = z3.simplify(nb(sl.lo, z3.IntVal(0)))
    hi = z3.simplify(nb(sl.hi, nz))
    cnt = z3.simplify(z3.If(hi > lo, hi - lo, 0))
    return lo, cnt


def getitem_basic(E, st, o, k, ctx):
    if isinstance(o, Ref) and st.obj(o).kind in ("list", "deque", "namedtuple"):
        sq = st.obj(o).data
        isl = st.obj(o).kind == "list"
    elif isinstance(o, (tuple, Seq)):
        sq = Seq.of(o) if isinstance(o, tuple) else o
        isl = False
    elif isinstance(o, Ref) and st.obj(o).kind in ("dict", "mapproxy"):
        d = st.obj(o).data
        out = []
        h = dict_has(E, st, d, k)
        for s, b in E.split(st, h):
            if b:
                out.append((s, dict_val(E, s, d, k)))
            else:
                df = st.obj(o).fields.get("default_factory")
                if df is not None:
                    for s2, v in E.call(s, df, ca_cls()([]), ctx):
                        out.append((s2.setd(o, dict_set(E, s2, s2.d(o), k, v)), v))
                else:
                    E.raise_(s, ctx, "KeyError", (k,))
        return out
    else:
        if isinstance(o, SV) and isinstance(o.cls, str):
            h = E.schema.get((o.cls, "[]"))
            if h is not None:
                return h(E, st, o, k, ctx)
            if o.cls in ("list", "tuple"):
                out = []
                for s, sq in iterate(E, st, o, ctx):
                    out += getitem_basic(E, s, sq, k, ctx)
                return out
        if isinstance(o, str) and isinstance(k, (int, Slice)):
            if isinstance(k, int):
                return [(st, o[k])]
            return [(st, o[k.lo:k.hi:k.step])]
        return None
    if isinstance(k, Slice):
        if sq.items is not None and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
            r = Seq.of(sq.items[k.lo:k.hi:k.step])
        else:
            lo, cnt = slice_bounds(E, st, k, sq.n)
            r = seq_sub(sq, lo, cnt)
        if isl:
            return [E.new_list(st, r)]
        return [(st, tuple(r.items) if r.items is not None else r)]
    if isinstance(k, SV) and k.cls == "slice":
        h = E.schema.get(("slice", "get"))
        if h is not None:
            return h(E, st, o, sq, k, ctx)
    if kind(k) in ("none", "str", "tuple", "obj"):
        E.raise_(st, ctx, "TypeError", ("indices must be integers or slices",))
        return []
    return [(s, sq.at(p)) for s, p in norm_index(E, st, k, sq.n, ctx)]


def setitem_basic(E, st, o, k, v, ctx):
    if isinstance(o, Ref):
        ob = st.obj(o)
        if ob.kind == "list":
            if isinstance(k, Slice) or (isinstance(k, SV) and k.cls == "slice"):
                h = E.schema.get(("slice", "set"))
                if h is not None:
                    return h(E, st, o, ob.data, k, v, ctx)
                return slice_replace(E, st, o, ob.data, k, v, ctx)
            return [s.setd(o, seq_set(ob.data, p, v)) for s, p in norm_index(E, st, k, ob.data.n, ctx)]
        if ob.kind == "dict":
            if E.on_attr_write is not None:
                st = E.on_attr_write(E, st, o, "[]", v, ctx)
            return [st.setd(o, dict_set(E, st, ob.data, k, v))]
    if isinstance(o, SV) and isinstance(o.cls, str):
        h = E.schema.get((o.cls, "[]="))
        if h is not None:
            return h(E, st, o, k, v, ctx)
    return None


def slice_replace(E, st, o, sq, k, v, ctx):
    """list[lo:hi] = items, and del list[lo:hi]"""
    if not isinstance(k, Slice):
        raise Unsupported("slice assignment")
    if E.on_attr_write is not None:
        st = E.on_attr_write(E, st, o, "[]", None, ctx)
    out = []
    for s, new in iterate(E, st, v, ctx):
        lo, cnt = slice_bounds(E, s, k, sq.n)
        if new.items is not None and len(new.items) == 1 and is_zero(cnt):
            out.append((s.setd(o, seq_insert(sq, lo, new.items[0]))))
            continue
        rest = z3.simplify(zlen(sq.n) - lo - cnt)
        out.append(s.setd(o, seq_concat(seq_concat(seq_sub(sq, z3.IntVal(0), lo), new), seq_sub(sq, z3.simplify(lo + cnt), rest))))
    return out


def is_zero(t):
    t = z3.simplify(t) if z3.is_expr(t) else t
    return (z3.is_int_value(t) and t.as_long() == 0) or (isinstance(t, int) and t == 0)


def delitem_basic(E, st, o, k, ctx):
    if isinstance(o, Ref):
        ob = st.obj(o)
        if ob.kind == "list":
            if isinstance(k, Slice):
                return slice_replace(E, st, o, ob.data, k, (), ctx)
            return [s.setd(o, seq_delete(ob.data, p)) for s, p in norm_index(E, st, k, ob.data.n, ctx)]
        if ob.kind == "dict":
            out = []
            for s, b in E.split(st, dict_has(E, st, ob.data, k)):
                if b:
                    out.append(s.setd(o, dict_del(E, s, ob.data, k)))
                else:
                    E.raise_(s, ctx, "KeyError", (k,))
            return out
    if isinstance(o, SV) and isinstance(o.cls, str):
        h = E.schema.get((o.cls, "del[]"))
        if h is not None:
            return h(E, st, o, k, ctx)
    return None


def delattr_(E, st, o, name, ctx):
    if isinstance(o, Ref):
        ob = st.obj(o)
        if name in ob.fields:
            return [st.put(o.oid, ob.without_field(name))]
        return [s for s, _ in E.raise_(st, ctx, "AttributeError", (name,))]
    raise Unsupported("delattr")


# --------------------------------------------------------------------- operators

_truediv = z3.Function("truediv", V, V, V)


def truediv(a, b):
    """quotient of numbers: uninterpreted (floating point is not modelled)"""
    return _truediv(to_term(a), to_term(b))


_strcat = z3.Function("strcat", V, V, V)


def binop(E, st, op, a, b, ctx):
    for x in (a, b):
        if isinstance(x, SV) and isinstance(x.cls, str):
            h = E.schema.get((x.cls, "binop"))
            if h is not None:
                return h(E, st, op, a, b, ctx)
    a, b = as_int(E, st, a), as_int(E, st, b)
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
        import operator as o
        f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "FloorDiv": o.floordiv, "Mod": o.mod, "Div": o.truediv,
             "Pow": o.pow}.get(op)
        if f is None:
            raise Unsupported(op)
        try:
            return [(st, f(a, b))]
        except ZeroDivisionError:
            return E.raise_(st, ctx, "ZeroDivisionError")
    if is_intlike(a) and is_intlike(b):
        x, y = zi(a), zi(b)
        if op == "Add":
            return [(st, mkint(x + y))]
        if op == "Sub":
            return [(st, mkint(x - y))]
        if op == "Mult":
            return [(st, mkint(x * y))]
        if op in ("Mod", "FloorDiv"):
            out = []
            for s, z in E.split(st, y == 0):
                if z:
                    E.raise_(s, ctx, "ZeroDivisionError")
                    continue
                # Python floors; SMT-LIB div/mod agree for positive divisors
                for s2, pos in E.split(s, y > 0):
                    if pos:
                        r = x % y if op == "Mod" else x / y
                    else:
                        r = -((-x) % (-y)) if op == "Mod" else (-x) / (-y)
                    out.append((s2, mkint(r)))
            return out
    if op == "Div" and isinstance(b, num) and b != 0 and (is_intlike(a) or isinstance(a, SV) and a.cls == "float"):
        return [(st, SV(truediv(a, b), "float"))]
    sa, sb = _as_seq(E, st, a), _as_seq(E, st, b)
    if op == "Add" and sa is not None and sb is not None:
        if isinstance(a, Ref) != isinstance(b, Ref):
            return E.raise_(st, ctx, "TypeError")
        r = seq_concat(sa, sb)
        if isinstance(a, Ref):
            return [E.new_list(st, r)]
        return [(st, tuple(r.items) if r.items is not None else r)]
    if op == "Mult" and sa is not None and isinstance(b, int):
        r = Seq.of([])
        for _ in range(b):
            r = seq_concat(r, sa)
        if isinstance(a, Ref):
            return [E.new_list(st, r)]
        return [(st, tuple(r.items) if r.items is not None else r)]
    if op == "Mult" and isinstance(a, (str,)) or (isinstance(a, SV) and a.cls == "str"):
        if op == "Mult":
            return [(st, SV(fresh_v("strmul"), "str"))]
    if op == "Add" and kind(a) in ("str", "sv") and kind(b) in ("str", "sv"):
        if isinstance(a, str) and isinstance(b, str):
            return [(st, a + b)]
        if (isinstance(a, str) or a.cls == "str") and (isinstance(b, str) or b.cls == "str"):
            return [(st, SV(_strcat(to_term(a), to_term(b)), "str"))]
    if op == "Mod" and isinstance(a, str):
        return [(st, SV(fresh_v("fmt"), "str"))]
    if op in ("BitOr", "BitAnd", "Sub", "BitXor") and isinstance(a, Ref) and isinstance(b, Ref) \
            and st.obj(a).kind == "set" and st.obj(b).kind == "set":
        return set_binop(E, st, op, st.d(a), st.d(b))
    m = {"Add": "__add__", "Sub": "__sub__", "BitOr": "__or__", "BitAnd": "__and__", "BitXor": "__xor__",
         "Mult": "__mul__"}.get(op)
    if m:
        f = E.class_attr_fn(st, a, m)
        if f is not None:
            return E.call(st, BM(f, a), ca_cls()([b]), ctx)
    raise Unsupported(f"operator {op} on {a!r}, {b!r}")


def set_binop(E, st, op, x, y):
    x, y = set_to_s(x), set_to_s(y)
    f = {"BitOr": z3.Or, "BitAnd": z3.And, "BitXor": z3.Xor, "Sub": lambda p, q: z3.And(p, z3.Not(q))}[op]
    n = fresh_int("set_n")
    has = lambda t: f(x.has(t), y.has(t))
    st = st.assume(n >= 0)
    return [E.alloc(st, Ext("builtins.set"), data=SetS(has, n), kind="set")]


def _as_seq(E, st, v):
    if isinstance(v, tuple):
        return Seq.of(v)
    if isinstance(v, Seq):
        return v
    if isinstance(v, Ref) and st.obj(v).kind == "list":
        return st.obj(v).data
    return None


def inplace(E, st, op, a, b, ctx):
    if isinstance(a, Ref) and st.obj(a).kind == "list" and op == "Add":
        out = []
        for s, sq in iterate(E, st, b, ctx):
            out.append((s.setd(a, seq_concat(s.d(a), sq)), a))
        return out
    m = {"Add": "__iadd__", "Sub": "__isub__", "BitOr": "__ior__", "BitAnd": "__iand__", "BitXor": "__ixor__",
         "MatMult": "__imatmul__"}.get(op)
    if m:
        f = E.class_attr_fn(st, a, m)
        if f is not None:
            return E.call(st, BM(f, a), ca_cls()([b]), ctx)
    if isinstance(a, SV) and isinstance(a.cls, str):
        h = E.schema.get((a.cls, "inplace"))
        if h is not None:
            return h(E, st, op, a, b, ctx)
    return binop(E, st, op, a, b, ctx)


def set_order(E, st, op, a, b, ctx):
    return None


_fmt: dict = {}


def format_str(tmpl, vs):
    if all(isinstance(v, str) and c == -1 for v, c in vs):
        it = iter(vs)
        return "".join(p if p is not None else next(it)[0] for p in tmpl)
    key = (tuple(tmpl), tuple(c for _, c in vs))
    if key not in _fmt:
        _fmt[key] = z3.Function(f"fmt{len(_fmt)}", *([V] * len(vs)), V)
    ts = []
    for v, _ in vs:
        try:
            ts.append(cls_term(v) if isinstance(v, ClassInfo) else to_term(v))
        except Unsupported:
            ts.append(fresh_v("fmtarg"))
    return SV(_fmt[key](*ts), "str")


def fmt_injective():
    """axioms: the formats used so far are unambiguous (each has projections)"""
    out = []
    for (tmpl, convs), f in _fmt.items():
        k = len(convs)
        xs = [z3.Const(f"fx{j}", V) for j in range(k)]
        if k:
            pr = [z3.Function(f"{f.name()}_{j}", V, V) for j in range(k)]
            out.append(z3.ForAll(xs, z3.And(*[p(f(*xs)) == x for p, x in zip(pr, xs)]), patterns=[f(*xs)]))
    return out


# --------------------------------------------------------------------- attributes of builtin values

LIST_M = {"append", "insert", "pop", "remove", "clear", "index", "reverse", "extend", "copy", "count", "sort"}
DEQUE_M = {"append", "popleft", "pop", "clear", "appendleft", "extend"}
DICT_M = {"get", "pop", "setdefault", "items", "keys", "values", "update", "clear", "copy", "popitem"}
SET_M = {"add", "discard", "remove", "update", "clear", "pop", "copy", "issubset", "issuperset", "intersection",
         "difference", "union", "symmetric_difference"}


def builtin_attr(E, st, v, o, name):
    k = o.kind
    if k == "list" and name in LIST_M:
        return BM(Ext("list." + name), v)
    if k == "list" and name == "__iter__":
        return BM(Ext("list.__iter__"), v)
    if k == "deque" and name in DEQUE_M:
        return BM(Ext("deque." + name), v)
    if k in ("dict", "mapproxy") and name in DICT_M:
        return BM(Ext("dict." + name), v)
    if k == "set" and name in SET_M:
        return BM(Ext("set." + name), v)
    if k == "exc":
        if name == "with_traceback":
            return BM(Ext("exc.with_traceback"), v)
        if name == "__class__":
            return o.cls
        return None
    if name in o.fields:
        return o.fields[name]
    key = f"{k}.{name}"
    if key in PRIMS:
        return BM(Ext(key), v)
    return None


def value_attr(E, st, v, name):
    if isinstance(v, (tuple, Seq)) and name in ("index", "count"):
        return BM(Ext("tuple." + name), v)
    if isinstance(v, str) and hasattr(str, name):
        return BM(Ext("str." + name), v)
    if isinstance(v, Fn):
        if name == "__name__":
            return getattr(v.node, "name", "<lambda>")
        if name == "__module__":
            return v.mod.name
        if name == "__qualname__":
            return v.qual.split(":")[-1]
        k = f"fnattr:{v.uid}:{name}"
        if k in st.ghost:
            return st.ghost[k]
        if name in ("__code__",):
            return None
        return None
    if isinstance(v, BM):
        if name == "__self__":
            return v.self_
        if name == "__func__":
            return v.fn
        if name == "__name__" and isinstance(v.fn, Fn):
            return v.fn.node.name
    if isinstance(v, Partial):
        if name == "func":
            return v.fn
        if name == "args":
            return tuple(v.args) if v.star is None else seq_concat(Seq.of(v.args), v.star)
    if isinstance(v, Slice):
        if name == "indices":
            return BM(Ext("slice.indices"), v)
        if name in ("start", "stop", "step"):
            return getattr(v, {"start": "lo", "stop": "hi", "step": "step"}[name])
    return None


def opaque_method(E, st, v, name):
    if v.cls == "str" and hasattr(str, name):
        return BM(Ext("symstr." + name), v)
    if v.cls == "list" and name in ("index",):
        return None
    if f"{v.cls}.{name}" in PRIMS:
        return BM(Ext(f"{v.cls}.{name}"), v)
    if name == "__class__":
        return SV(attr_fun("__class__")(v.t), "type")
    return None


def ext_attr(E, st, v, name):
    full = f"{v.name}.{name}"
    if full == "sys.modules":
        return Ext("sys.modules")
    if name == "__args__" and "." in v.name:       # Literal[...] alias of a module
        m = E.loader.module(v.name.rsplit(".", 1)[0])
        e = m.names.get(v.name.rsplit(".", 1)[1]) if m is not None else None
        if e and e[0] == "expr" and isinstance(e[1], ast.Subscript) and getattr(e[1].value, "id", getattr(e[1].value, "attr", "")) == "Literal":
            elts = e[1].slice.elts if isinstance(e[1].slice, ast.Tuple) else [e[1].slice]
            if all(isinstance(x, ast.Constant) for x in elts):
                return tuple(x.value for x in elts)
    return Ext(full)


# --------------------------------------------------------------------- with-blocks on builtins

def lock_acquire(E, st, lk):
    """the calling thread's depth; E.on_lock (if any) lets the other threads act when the lock was free"""
    d = st.f(lk, "depth")
    if st.obj(lk).fields.get("reentrant") is False:
        E.obligation("a lock that is not re-entrant is not taken again by its holder", st, zi(d) == 0)
    if E.on_lock is not None:
        st = E.on_lock(E, st, lk, "acquire")
    return st.setf(lk, "depth", mkint(zi(st.f(lk, "depth")) + 1))


def lock_release(E, st, lk):
    E.obligation("a lock is only released by its holder", st, zi(st.f(lk, "depth")) > 0)
    st = st.setf(lk, "depth", mkint(zi(st.f(lk, "depth")) - 1))
    return E.on_lock(E, st, lk, "release") if E.on_lock is not None else st


def with_builtin(E, st, cm, body, ctx):
    if isinstance(cm, Ref):
        o = st.obj(cm)
        if o.kind == "rlock":
            return [(k, lock_release(E, s2, cm), v) for k, s2, v in body(lock_acquire(E, st, cm), True)]
        if o.kind == "suppress":
            out = []
            for k, s2, v in body(st, None):
                if k == "raise" and any(E.exc_isa(s2, v, c) for c in o.fields["excs"]):
                    out.append(("n", s2, None))
                else:
                    out.append((k, s2, v))
            return out
    if isinstance(cm, SV) and isinstance(cm.cls, str):
        h = E.schema.get((cm.cls, "with"))
        if h is not None:
            return h(E, st, cm, body, ctx)
    return None


# --------------------------------------------------------------------- calls that need the AST

def special_call(E, n, st, ctx):
    if not isinstance(n.func, ast.Name):
        return None
    name = n.func.id
    if any(name in names for _, names in ctx.frames):
        return None
    e = ctx.mod.names.get(name)
    if e is not None and not (e[0] == "import" and e[1] in ("typing", "typing_extensions", "warnings")):
        return None
    if name == "cast" and len(n.args) == 2:
        return E.ev(n.args[1], st, ctx)
    if name == "next" and n.args and isinstance(n.args[0], ast.GeneratorExp):
        return _next_gen(E, n, st, ctx)
    if name in ("any", "all") and n.args and isinstance(n.args[0], ast.GeneratorExp):
        return _any_all(E, n, st, ctx, name == "any")
    return None


def _next_gen(E, n, st, ctx):
    g = n.args[0]

    def emit(s, c2):
        return [("ret", s2, v) for s2, v in E.ev(g.elt, s, c2)]
    out = []
    for kind_, s, v in E._comp(g, st, ctx, emit):
        if kind_ == "ret":
            out.append((s, v))
        elif kind_ == "raise":
            ctx.sink.append((s, v))
        elif len(n.args) > 1:
            out += E.ev(n.args[1], s, ctx)
        else:
            E.raise_(s, ctx, "StopIteration")
    return out


def _any_all(E, n, st, ctx, is_any):
    g = n.args[0]

    def emit(s, c2):
        res = []
        for s2, b in E.ev_cond(g.elt, s, c2):
            if b == is_any:
                res.append(("ret", s2, is_any))
            else:
                res.append(("n", s2, None))
        return res
    out = []
    for kind_, s, v in E._comp(g, st, ctx, emit):
        if kind_ == "ret":
            out.append((s, v))
        elif kind_ == "raise":
            ctx.sink.append((s, v))
        else:
            out.append((s, not is_any))
    return out


# --------------------------------------------------------------------- primitive methods

PRIMS: dict = {}
FUNCS: dict = {}


def prim(*names):
    def deco(f):
        for n in names:
            PRIMS[n] = f
        return f
    return deco


def func(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def a1(ca, n=1):
    if ca.star is not None:
        raise Unsupported("symbolic * in builtin call")
    return ca.pos


@prim("rlock.acquire", "rlock.__enter__")
def _(E, st, o, ca, ctx):
    if ca.pos or ca.kw:
        raise Unsupported("acquire() with a timeout or without blocking")
    return [(lock_acquire(E, st, o), True)]


@prim("rlock.release")
def _(E, st, o, ca, ctx):
    return [(lock_release(E, st, o), None)]


@prim("rlock.__exit__")
def _(E, st, o, ca, ctx):
    return [(lock_release(E, st, o), None)]


@prim("list.append", "deque.append")
def _(E, st, o, ca, ctx):
    if E.on_attr_write is not None:
        st = E.on_attr_write(E, st, o, "[]", None, ctx)
    return [(st.setd(o, seq_append(st.d(o), a1(ca)[0])), None)]


@prim("list.insert")
def _(E, st, o, ca, ctx):
    if E.on_attr_write is not None:
        st = E.on_attr_write(E, st, o, "[]", None, ctx)
    i, v = a1(ca)
    if not is_intlike(i):
        if isinstance(i, SV):
            raise Unsupported("opaque index")
        return E.raise_(st, ctx, "TypeError")
    return [(st.setd(o, seq_insert(st.d(o), zi(i) if not isinstance(i, int) else i, v)), None)]


@prim("list.clear", "deque.clear")
def _(E, st, o, ca, ctx):
    if E.on_attr_write is not None:
        st = E.on_attr_write(E, st, o, "[]", None, ctx)
    return [(st.setd(o, Seq.of([])), None)]


@prim("list.pop")
def _(E, st, o, ca, ctx):
    if E.on_attr_write is not None:
        st = E.on_attr_write(E, st, o, "[]", None, ctx)
    sq = st.d(o)
    i = a1(ca)[0] if ca.pos else -1
    return [(s.setd(o, seq_delete(sq, p)), sq.at(p)) for s, p in norm_index(E, st, i, sq.n, ctx)]


@prim("deque.popleft")
def _(E, st, o, ca, ctx):
    if E.on_attr_write is not None:
        st = E.on_attr_write(E, st, o, "[]", None, ctx)
    sq = st.d(o)
    return [(s.setd(o, seq_delete(sq, p)), sq.at(p)) for s, p in norm_index(E, st, 0, sq.n, ctx)]


def pure_equal(E, st, y, x, ctx):
    """`y is x or y == x` as one formula; the comparison must not have effects nor raise."""
    from .values import serial_now
    from .loops import fresh_since
    c2 = ctx.child(sink=[])
    serial = serial_now()
    r = E.equal(st, y, x, c2)
    if c2.sink:
        raise Unsupported("__eq__ that may raise in a search")
    alts = []
    for s, c in r:
        for oid, o in s.heap.items():
            if st.heap.get(oid) is not o and not (oid not in st.heap and o.kind == "frame"):
                raise Unsupported("__eq__ with effects in a search")
        extra = s.pc[len(st.pc):]
        c = z3.BoolVal(c) if isinstance(c, bool) else c
        f = z3.And(*extra, c)
        if fresh_since(f, serial):
            raise Unsupported("complex __eq__ in a search")
        alts.append(f)
    c = z3.simplify(z3.Or(*alts)) if alts else z3.BoolVal(False)
    idc = ident(E, st, y, x)
    if idc is True:
        return z3.BoolVal(True)
    return c if idc is False else z3.Or(idc, c)


def seq_find(E, st, sq, x, ctx, n_from=0):
    """first index equal to x: [(st, idx or None)]"""
    if sq.items is not None:
        cur = [st]
        out = []
        for j, y in enumerate(sq.items):
            nxt = []
            for s in cur:
                for s1, c in ([(s, True)] if y is x else E.equal(s, y, x, ctx)):
                    for s2, b in E.split(s1, c):
                        if b:
                            out.append((s2, j))
                        else:
                            nxt.append(s2)
            cur = nxt
        return out + [(s, None) for s in cur]
    k = fresh_int("k_find")
    c = pure_equal(E, st.assume(0 <= k, k < sq.zn()), sq.at(k), x, ctx)
    w = fresh_int("w_find")
    out = []
    s1 = st.assume(0 <= w, w < sq.zn(), z3.substitute(c, (k, w)),
                   z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < w), z3.Not(c))))
    if E.feasible(s1):
        out.append((s1, w))
    s2 = st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < sq.zn()), z3.Not(c))))
    out.append((s2, None))
    return out


@prim("list.remove")
def _(E, st, o, ca, ctx):
    if E.on_attr_write is not None:
        st = E.on_attr_write(E, st, o, "[]", None, ctx)
    out = []
    for s, i in seq_find(E, st, st.d(o), a1(ca)[0], ctx):
        if i is None:
            E.raise_(s, ctx, "ValueError")
        else:
            out.append((s.setd(o, seq_delete(s.d(o), i)), None))
    return out


@prim("list.index", "tuple.index")
def _(E, st, o, ca, ctx):
    sq = st.d(o) if isinstance(o, Ref) else (Seq.of(o) if isinstance(o, tuple) else o)
    if len(ca.pos) > 1:
        raise Unsupported("index with bounds")
    out = []
    for s, i in seq_find(E, st, sq, a1(ca)[0], ctx):
        if i is None:
            E.raise_(s, ctx, "ValueError")
        else:
            out.append((s, i if isinstance(i, int) else mkint(i)))
    return out


@prim("list.reverse")
def _(E, st, o, ca, ctx):
    return [(st.setd(o, seq_reverse(st.d(o))), None)]


@prim("list.extend", "deque.extend")
def _(E, st, o, ca, ctx):
    out = []
    for s, sq in iterate(E, st, a1(ca)[0], ctx):
        out.append((s.setd(o, seq_concat(s.d(o), sq)), None))
    return out


@prim("list.copy")
def _(E, st, o, ca, ctx):
    return [E.new_list(st, st.d(o))]


@prim("list.__iter__")
def _(E, st, o, ca, ctx):
    return [E.alloc(st, Ext("iterator"), {"pos": 0}, st.d(o), "iter")]


@prim("dict.get")
def _(E, st, o, ca, ctx):
    d = st.d(o)
    k = a1(ca)[0]
    dflt = ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("default")
    out = []
    for s, b in E.split(st, dict_has(E, st, d, k)):
        out.append((s, dict_val(E, s, d, k) if b else dflt))
    return out


@prim("dict.pop")
def _(E, st, o, ca, ctx):
    if E.on_attr_write is not None:
        st = E.on_attr_write(E, st, o, "[]", None, ctx)
    d = st.d(o)
    k = a1(ca)[0]
    out = []
    for s, b in E.split(st, dict_has(E, st, d, k)):
        if b:
            out.append((s.setd(o, dict_del(E, s, d, k)), dict_val(E, s, d, k)))
        elif len(ca.pos) > 1:
            out.append((s, ca.pos[1]))
        else:
            E.raise_(s, ctx, "KeyError", (k,))
    return out


@prim("dict.setdefault")
def _(E, st, o, ca, ctx):
    if E.on_attr_write is not None:
        st = E.on_attr_write(E, st, o, "[]", None, ctx)
    d = st.d(o)
    k = a1(ca)[0]
    v = ca.pos[1] if len(ca.pos) > 1 else None
    out = []
    for s, b in E.split(st, dict_has(E, st, d, k)):
        if b:
            out.append((s, dict_val(E, s, d, k)))
        else:
            out.append((s.setd(o, dict_set(E, s, d, k, v)), v))
    return out


@prim("dict.keys")
def _(E, st, o, ca, ctx):
    return [dict_keys_seq(E, st, o)]


@prim("dict.values")
def _(E, st, o, ca, ctx):
    st, sq = dict_keys_seq(E, st, o)
    d = st.d(o)
    if isinstance(d, DictC):
        return [(st, Seq.of(list(d.d.values())))]
    return [(st, Seq(sq.n, lambda k: dict_val(E, st, d, sq.at(k))))]


@prim("dict.items")
def _(E, st, o, ca, ctx):
    st, sq = dict_keys_seq(E, st, o)
    d = st.d(o)
    if isinstance(d, DictC):
        return [(st, Seq.of(list(d.d.items())))]
    return [(st, Seq(sq.n, lambda k: (sq.at(k), dict_val(E, st, d, sq.at(k)))))]


@prim("dict.update")
def _(E, st, o, ca, ctx):
    s = st
    if ca.pos:
        x = ca.pos[0]
        if isinstance(x, Ref) and s.obj(x).kind == "dict":
            s = s.setd(o, dict_merge(E, s, s.d(o), s.d(x)))
        elif isinstance(x, (tuple, Seq)) or isinstance(x, Ref) and s.obj(x).kind == "list":
            outs = []
            for s2, sq in iterate(E, s, x, ctx):
                if sq.items is None or not all(isinstance(it, tuple) and len(it) == 2 for it in sq.items):
                    raise Unsupported("dict.update of a symbolic iterable")
                for k, v in sq.items:
                    s2 = s2.setd(o, dict_set(E, s2, s2.d(o), k, v))
                outs.append(s2)
            for k, v in ca.kw.items():
                outs = [s2.setd(o, dict_set(E, s2, s2.d(o), k, v)) for s2 in outs]
            return [(s2, None) for s2 in outs]
        else:
            raise Unsupported("dict.update")
    for k, v in ca.kw.items():
        s = s.setd(o, dict_set(E, s, s.d(o), k, v))
    return [(s, None)]


@prim("dict.clear")
def _(E, st, o, ca, ctx):
    return [(st.setd(o, DictC({})), None)]


@prim("dict.copy")
def _(E, st, o, ca, ctx):
    return [E.alloc(st, Ext("builtins.dict"), data=st.d(o), kind="dict")]


@prim("set.add")
def _(E, st, o, ca, ctx):
    return [(st.setd(o, set_add(st.d(o), a1(ca)[0])), None)]


@prim("set.discard")
def _(E, st, o, ca, ctx):
    return [(st.setd(o, set_del(st.d(o), a1(ca)[0])), None)]


@prim("set.remove")
def _(E, st, o, ca, ctx):
    out = []
    x = a1(ca)[0]
    for s, b in E.split(st, set_has(st.d(o), x)):
        if b:
            out.append((s.setd(o, set_del(s.d(o), x)), None))
        else:
            E.raise_(s, ctx, "KeyError", (x,))
    return out


@prim("set.clear")
def _(E, st, o, ca, ctx):
    return [(st.setd(o, SetC(())), None)]


@prim("set.update")
def _(E, st, o, ca, ctx):
    out = [(st, None)]
    for x in ca.pos:
        nxt = []
        for s, _ in out:
            for s2, r in make_set(E, s, x, ctx):
                d = s2.d(r)
                if isinstance(d, SetC):
                    cur = s2.d(o)
                    for y in d.items:
                        cur = set_add(cur, y)
                    nxt.append((s2.setd(o, cur), None))
                else:
                    a, b = set_to_s(s2.d(o)), d
                    n = fresh_int("set_n")
                    s3 = s2.assume(n >= a.n, n <= a.n + b.n)
                    nxt.append((s3.setd(o, SetS(lambda t, a=a, b=b: z3.Or(a.has(t), b.has(t)), n)), None))
        out = nxt
    return out


def subset(E, st, a, b):
    """(st, bool) every member of a is a member of b"""
    r, w, t = fresh_bool("subset"), fresh_v("w_sub"), z3.Const("t_sub", V)
    a, b = set_to_s(a), set_to_s(b)
    at = a.has(t)
    pats = {"patterns": [at]} if z3.is_app(at) and at.decl().kind() == z3.Z3_OP_UNINTERPRETED and at.num_args() else {}
    return st.assume(z3.If(r, z3.ForAll([t], z3.Implies(at, b.has(t)), **pats), z3.And(a.has(w), z3.Not(b.has(w))))), SBool(r)


@prim("set.issubset")
def _(E, st, o, ca, ctx):
    return [subset(E, s, s.d(o), s.d(r)) for s, r in make_set(E, st, a1(ca)[0], ctx)]


@prim("set.issuperset")
def _(E, st, o, ca, ctx):
    return [subset(E, s, s.d(r), s.d(o)) for s, r in make_set(E, st, a1(ca)[0], ctx)]


@prim("exc.with_traceback")
def _(E, st, o, ca, ctx):
    return [(st, o)]


@prim("exc.__init__")
def _(E, st, o, ca, ctx):
    return [(st.setf(o, "args", tuple(ca.pos)), None)]


@prim("object.__init__")
def _(E, st, o, ca, ctx):
    return [(st, None)]


@prim("object.__setattr__")
def _(E, st, o, ca, ctx):
    name, v = ca.pos
    return [(st.setf(o, name, v), None)]


@prim("object.__repr__")
def _(E, st, o, ca, ctx):
    return [(st, SV(fresh_v("repr"), "str"))]


@prim("str.lower", "str.upper", "str.startswith", "str.endswith", "str.split", "str.strip", "str.replace",
      "str.count", "str.format", "str.join", "str.index")
def _(E, st, o, ca, ctx):
    raise Unsupported("str method")


def _strm(name):
    def f(E, st, o, ca, ctx):
        args = a1(ca)
        if all(isinstance(x, (str, int)) or isinstance(x, tuple) and all(isinstance(y, str) for y in x) for x in args) and not ca.kw:
            r = getattr(o, name)(*args)
            if isinstance(r, list):
                return [E.new_list(st, Seq.of(r))]
            return [(st, r)]
        if name == "join":
            return [(st, SV(fresh_v("join"), "str"))]
        if name in ("startswith", "endswith"):
            return [(st, SBool(fresh_bool(name)))]
        return [(st, SV(fresh_v(name), "str"))]
    return f


for _n in ("lower", "upper", "startswith", "endswith", "split", "strip", "replace", "count", "format", "join", "index"):
    PRIMS["str." + _n] = _strm(_n)

_symstr: dict = {}


def _symstrm(name):
    def f(E, st, o, ca, ctx):
        args = a1(ca)
        key = (name, len(args))
        if name in ("startswith", "endswith"):
            if key not in _symstr:
                _symstr[key] = z3.Function("str_" + name, V, V, z3.BoolSort())
            return [(st, SBool(_symstr[key](o.t, to_term(args[0]))))]
        if key not in _symstr:
            _symstr[key] = z3.Function(f"str_{name}{len(args)}", *([V] * (len(args) + 1)), V)
        try:
            ts = [to_term(a) for a in args]
        except Unsupported:
            return [(st, SV(fresh_v("str"), "str"))]
        return [(st, SV(_symstr[key](o.t, *ts), "str"))]
    return f


for _n in ("lower", "upper", "startswith", "endswith", "strip", "replace", "format", "join"):
    PRIMS["symstr." + _n] = _symstrm(_n)


# --------------------------------------------------------------------- functions

@func("builtins.len")
def _(E, st, ca, ctx):
    v = a1(ca)[0]
    if isinstance(v, (tuple, str)):
        return [(st, len(v))]
    if isinstance(v, Seq):
        return [(st, seq_len(v))]
    if isinstance(v, Ref):
        o = st.obj(v)
        if o.kind in ("list", "deque", "namedtuple"):
            return [(st, seq_len(o.data))]
        if o.kind in ("dict", "mapproxy"):
            d = o.data
            return [(st, len(d.d) if isinstance(d, DictC) else mkint(d.n))]
        if o.kind == "set":
            d = o.data
            return [(st, len(d.items) if isinstance(d, SetC) else mkint(d.n))]
    f = E.class_attr_fn(st, v, "__len__")
    if f is not None:
        return E.call(st, BM(f, v), ca_cls()([]), ctx)
    if isinstance(v, SV):
        h = E.schema.get((v.cls, "len")) if isinstance(v.cls, str) else None
        if h is not None:
            return h(E, st, v, ctx)
        return [(st.assume(lenf(v.t) >= 0), SInt(lenf(v.t)))]
    raise Unsupported(f"len of {v!r}")


def range_seq(lo, hi, step):
    if all(isinstance(x, int) for x in (lo, hi, step)):
        return Seq.of(list(range(lo, hi, step)))
    if isinstance(step, int) and step == 1:
        l, h = zi(lo), zi(hi)
        return Seq(z3.simplify(z3.If(h > l, h - l, 0)), lambda k: mkint(l + k))
    if isinstance(step, int) and step == -1:
        l, h = zi(lo), zi(hi)
        return Seq(z3.simplify(z3.If(l > h, l - h, 0)), lambda k: mkint(l - k))
    l, h, s = zi(lo), zi(hi), zi(step)
    n = z3.If(s > 0, z3.If(h > l, (h - l - 1) / s + 1, 0), z3.If(l > h, (l - h - 1) / (-s) + 1, 0))
    return Seq(n, lambda k: mkint(l + k * s))


@func("builtins.range")
def _(E, st, ca, ctx):
    p = a1(ca)
    lo, hi, step = (0, p[0], 1) if len(p) == 1 else (p[0], p[1], 1) if len(p) == 2 else p
    return [(st, range_seq(lo, hi, step))]


@func("builtins.enumerate")
def _(E, st, ca, ctx):
    start = ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("start", 0)
    out = []
    for s, sq in iterate(E, st, ca.pos[0], ctx):
        if sq.items is not None and isinstance(start, int):
            out.append((s, Seq.of([(start + i, x) for i, x in enumerate(sq.items)])))
        else:
            out.append((s, Seq(sq.n, lambda k, sq=sq: (mkint(zi(start) + zlen(k)), sq.at(k)))))
    return out


@func("builtins.zip")
def _(E, st, ca, ctx):
    outs = [(st, [])]
    for x in a1(ca):
        outs = [(s2, l + [sq]) for s, l in outs for s2, sq in iterate(E, s, x, ctx)]
    res = []
    for s, l in outs:
        if all(q.items is not None for q in l):
            res.append((s, Seq.of([tuple(t) for t in zip(*[q.items for q in l])])))
        else:
            n = l[0].zn()
            for q in l[1:]:
                n = z3.If(n < q.zn(), n, q.zn())
            res.append((s, Seq(z3.simplify(n), lambda k, l=l: tuple(q.at(k) for q in l))))
    return res


@func("builtins.reversed")
def _(E, st, ca, ctx):
    return [(s, seq_reverse(sq)) for s, sq in iterate(E, st, a1(ca)[0], ctx)]


@func("builtins.tuple")
def _(E, st, ca, ctx):
    if not ca.pos:
        return [(st, ())]
    return [(s, tuple(sq.items) if sq.items is not None else sq) for s, sq in iterate(E, st, ca.pos[0], ctx)]


@func("builtins.list")
def _(E, st, ca, ctx):
    if not ca.pos:
        return [E.new_list(st, Seq.of([]))]
    return [E.new_list(s, sq) for s, sq in iterate(E, st, ca.pos[0], ctx)]


@func("collections.deque")
def _(E, st, ca, ctx):
    sq = Seq.of([])
    return [E.new_list(st, sq, "deque")]


@func("builtins.set", "builtins.frozenset")
def _(E, st, ca, ctx):
    if not ca.pos:
        return [E.alloc(st, Ext("builtins.set"), data=SetC(()), kind="set")]
    return make_set(E, st, ca.pos[0], ctx)


@func("builtins.dict.fromkeys")
def _(E, st, ca, ctx):
    """the distinct items, in the order of their first occurrence"""
    xs, dflt = ca.pos[0], (ca.pos[1] if len(ca.pos) > 1 else None)
    out = []
    for s, sq in iterate(E, st, xs, ctx):
        if sq.items is not None:
            d = DictC({})
            for x in sq.items:
                d = dict_set(E, s, d, x, dflt)
        else:
            I = z3.IntSort()
            n, has = fresh_int("n_distinct"), fresh_fun("fk_has", V, z3.BoolSort())
            T, F, P = fresh_fun("fk_key", I, V), fresh_fun("fk_first", I, I), fresh_fun("fk_pos", V, I)
            k, x = z3.Int("k_fk"), z3.Const("x_fk", V)
            at = lambda j: key_term(sq.at(j))
            e = at(k)
            seen = []
            for part, off in seq_parts(sq):
                pe = key_term(part.at(k))
                ps = direct_apps(pe, k)
                pats = {"patterns": ps} if ps else {}
                seen.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < part.zn()), z3.And(has(pe), F(P(pe)) <= k + off)), **pats))
            s = s.assume(0 <= n, n <= sq.zn(),
                         z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(has(T(k)), P(T(k)) == k, 0 <= F(k), F(k) < sq.zn(), at(F(k)) == T(k))), patterns=[T(k)]),
                         *seen,
                         z3.ForAll([x], z3.Implies(has(x), z3.And(0 <= P(x), P(x) < n, T(P(x)) == x)), patterns=[has(x)]))
            hint = sq.at(k)
            hint = hint.cls if isinstance(hint, SV) else "atom"
            i, j = fresh_int("i_fk"), fresh_int("j_fk")
            if E.entails(s.assume(0 <= i, i < j, j < sq.zn()), at(i) != at(j)):     # no repetition: the items as they are
                s = s.assume(n == sq.zn(), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), T(k) == e), patterns=[T(k)]))
            d = DictS(lambda t, has=has: has(t), lambda t: dflt, n, Seq(n, lambda j, T=T, hint=hint: from_term(T(zlen(j)), hint)), lambda t, P=P: P(t))
        s, ref = E.alloc(s, Ext("builtins.dict"), data=d, kind="dict")
        out.append((s, ref))
    return out


@func("builtins.dict")
def _(E, st, ca, ctx):
    d = DictC({})
    if ca.pos:
        x = ca.pos[0]
        if isinstance(x, Ref) and st.obj(x).kind in ("dict", "mapproxy"):
            d = st.obj(x).data
        else:
            for s, sq in iterate(E, st, x, ctx):
                if sq.items is None:
                    raise Unsupported("dict of symbolic iterable")
                for it in sq.items:
                    d = dict_set(E, st, d, it[0], it[1])
                st = s
    for k, v in ca.kw.items():
        d = dict_set(E, st, d, k, v)
    return [E.alloc(st, Ext("builtins.dict"), data=d, kind="dict")]


@func("builtins.iter")
def _(E, st, ca, ctx):
    out = []
    for s, sq in iterate(E, st, a1(ca)[0], ctx):
        out.append(E.alloc(s, Ext("iterator"), {"pos": 0}, sq, "iter"))
    return out


@func("builtins.next")
def _(E, st, ca, ctx):
    it = ca.pos[0]
    if isinstance(it, Seq) or isinstance(it, tuple):
        sq = it if isinstance(it, Seq) else Seq.of(it)
        pos = 0
        upd = lambda s, p: s
    else:
        o = st.obj(it)
        sq, pos = o.data, o.fields["pos"]
        upd = lambda s, p: s.setf(it, "pos", p)
    out = []
    for s, b in E.split(st, zi(pos) < sq.zn()):
        if b:
            out.append((upd(s, mkint(zi(pos) + 1)), sq.at(zi(pos) if not isinstance(pos, int) else pos)))
        elif len(ca.pos) > 1:
            out.append((s, ca.pos[1]))
        else:
            E.raise_(s, ctx, "StopIteration")
    return out


@func("builtins.bool")
def _(E, st, ca, ctx):
    return [(s, mkbool(t) if not isinstance(t, bool) else t) for s, t in E.truth(st, a1(ca)[0], ctx)]


@func("builtins.int")
def _(E, st, ca, ctx):
    return [(st, mkint(zi(a1(ca)[0])))]


@func("builtins.max", "builtins.min")
def _(E, st, ca, ctx):
    raise Unsupported("max")


def _minmax(is_max):
    def f(E, st, ca, ctx):
        if len(ca.pos) < 2:
            raise Unsupported("max of iterable")
        r = ca.pos[0]
        for x in ca.pos[1:]:
            if isinstance(r, int) and isinstance(x, int):
                r = max(r, x) if is_max else min(r, x)
            else:
                a, b = zi(r), zi(x)
                r = mkint(z3.If(a >= b, a, b) if is_max else z3.If(a <= b, a, b))
        return [(st, r)]
    return f


FUNCS["builtins.max"] = _minmax(True)
FUNCS["builtins.min"] = _minmax(False)

_strf = z3.Function("str_of", V, V)
_reprf = z3.Function("repr_of", V, V)
_idf = z3.Function("id_of", V, z3.IntSort())


@func("builtins.str")
def _(E, st, ca, ctx):
    if not ca.pos:
        return [(st, "")]
    v = ca.pos[0]
    if isinstance(v, str) or (isinstance(v, SV) and v.cls == "str"):
        return [(st, v)]
    try:
        return [(st, SV(_strf(to_term(v)), "str"))]
    except Unsupported:
        return [(st, SV(fresh_v("str"), "str"))]


@func("builtins.repr", "builtins.hex", "builtins.ascii", "builtins.object.__repr__")
def _(E, st, ca, ctx):
    try:
        return [(st, SV(_reprf(to_term(a1(ca)[0])), "str"))]
    except Unsupported:
        return [(st, SV(fresh_v("repr"), "str"))]


@func("builtins.id")
def _(E, st, ca, ctx):
    v = a1(ca)[0]
    t = cls_term(v) if isinstance(v, ClassInfo) else to_term(v)
    return [(st.assume(inv_id(_idf(t)) == t), SInt(_idf(t)))]


inv_id = z3.Function("obj_of_id", z3.IntSort(), V)     # ids of live objects are distinct


@func("builtins.hash")
def _(E, st, ca, ctx):
    v = a1(ca)[0]
    try:
        t = to_term(v)
    except Exception:       # no term for it: any number
        return [(st, SInt(fresh_int("hash")))]
    return [(st, SInt(_hashf(t)))]       # a function of the value, not one-to-one


_hashf = z3.Function("hash_of", V, z3.IntSort())


@func("builtins.callable")
def _(E, st, ca, ctx):
    v = a1(ca)[0]
    k = kind(v)
    if k in ("none", "bool", "int", "str", "tuple"):
        return [(st, False)]
    if isinstance(v, (Fn, BM, ClassInfo, Partial, Ext)):
        return [(st, True)]
    if isinstance(v, Ref):
        o = st.obj(v)
        return [(st, E.class_attr_fn(st, v, "__call__") is not None)]
    return [(st, SBool(z3.And(callable_p(v.t), v.t != V.none)))]


_TY = {"builtins.int": ("int", "bool"), "builtins.bool": ("bool",), "builtins.str": ("str",),
       "builtins.tuple": ("tuple",), "builtins.float": ()}


def isinstance_(E, st, v, c):
    """bool | z3 Bool"""
    if isinstance(c, tuple):
        cs = [isinstance_(E, st, v, x) for x in c]
        if any(x is True for x in cs):
            return True
        cs = [x for x in cs if x is not False]
        return z3.Or(*cs) if cs else False
    if isinstance(c, Seq):
        raise Unsupported("isinstance with a symbolic tuple")
    if isinstance(c, SV):
        f = z3.Function("isinstance2", V, V, z3.BoolSort())
        return f(to_term(v), c.t)
    cname = c.qual if isinstance(c, ClassInfo) else c.name
    if cname == "builtins.object":
        return True
    h = E.schema.get(("isinstance", cname))
    if h is not None:
        r = h(E, st, v)
        if r is not None:
            return r
    k = kind(v)
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o.cls, ClassInfo):
            if o.kind == "namedtuple" and cname == "builtins.tuple":
                return True
            return abc_isa(o.cls, cname)
        if o.cls is None:
            return False
        names = cls_names(o.cls)
        if cname in names:
            return True
        return cname.replace(":", ".").split(".")[-1] in ABCS.get(o.kind, ())
    if k in ("none", "int", "bool", "str", "tuple"):
        if cname in _TY:
            t = _TY[cname]
            if k == "str":
                return isinstance(v, str) and cname == "builtins.str"
            return k in t
        if k == "tuple":
            return cname.split(".")[-1].split(":")[-1] in ("Iterable", "Sequence", "Container", "Sized", "Collection", "Reversible", "Hashable")
        if k == "str":
            return cname.split(".")[-1].split(":")[-1] in ("Iterable", "Sequence", "Container", "Sized", "Collection", "Reversible", "Hashable")
        return False
    if isinstance(v, SV):
        if isinstance(v.cls, ClassInfo):
            if abc_isa(v.cls, cname):
                return v.t != V.none
            if isinstance(c, ClassInfo) and v.cls in c.mro():
                return z3.And(v.t != V.none, inst_pred(cname)(v.t))
            if isinstance(c, ClassInfo):
                return False
            return False
        if isinstance(v.cls, str):
            r = TAG_ISA.get((v.cls, cname))
            if r is not None:
                return r
            h = E.schema.get((v.cls, "isinstance"))
            if h is not None:
                r = h(E, st, v, cname)
                if r is not None:
                    return r
        return inst_pred(cname)(v.t)
    if isinstance(v, Fn):
        return cname in ("types.FunctionType", "typing.Callable")
    if isinstance(v, BM):
        return cname == ("types.MethodType" if isinstance(v.fn, Fn) else "types.BuiltinMethodType")
    if isinstance(v, Partial):
        return cname == "functools.partial"
    if isinstance(v, ClassInfo):
        return cname == "builtins.type"
    if isinstance(v, Slice):
        return cname == "builtins.slice"
    if isinstance(v, Ext):
        r = EXT_ISA.get((v.name, cname))
        if r is not None:
            return r
        if cname == "builtins.type" and v.name.startswith("builtins.") and isinstance(getattr(builtins, v.name[9:], None), type):
            return True
        if v.name.startswith("psygnal.") and v.name.endswith(("_NULL", "NULL", "_UNSET")):
            return False
        return inst_pred(cname)(to_term(v))
    raise Unsupported(f"isinstance({v!r}, {c!r})")


EXT_ISA: dict = {}
TAG_ISA = {("str", "builtins.str"): True, ("str", "builtins.int"): False, ("tuple", "builtins.tuple"): True,
           ("list", "builtins.list"): True, ("int", "builtins.int"): True, ("slice", "builtins.slice"): True,
           ("slice", "builtins.int"): False, ("type", "builtins.type"): True, ("int", "builtins.slice"): False,
           ("int", "builtins.str"): False}
ABCS = {"list": ("Iterable", "Sequence", "MutableSequence", "Container", "Sized", "Collection", "Reversible"),
        "dict": ("Iterable", "Mapping", "MutableMapping", "Container", "Sized", "Collection"),
        "set": ("Iterable", "Set", "MutableSet", "Container", "Sized", "Collection"),
        "deque": ("Iterable", "Sequence", "MutableSequence", "Container", "Sized"),
        "iter": ("Iterable", "Iterator")}


def abc_isa(cls, cname):
    names = cls_names(cls)
    if cname in names:
        return True
    tail = cname.replace("collections.abc.", "").replace("_collections_abc:", "").replace("typing.", "")
    for k in cls.mro():
        if isinstance(k, ClassInfo) and k.mod.name == "_collections_abc" and k.name == tail:
            return True
    return False


@func("builtins.isinstance")
def _(E, st, ca, ctx):
    v, c = a1(ca)
    r = isinstance_(E, st, v, c)
    return [(st, r if isinstance(r, bool) else mkbool(r))]


@func("builtins.issubclass")
def _(E, st, ca, ctx):
    a, b = a1(ca)
    if isinstance(a, ClassInfo) and isinstance(b, (ClassInfo, Ext)):
        return [(st, cls_isa(a, b))]
    if isinstance(a, SV) or isinstance(b, SV):
        f = z3.Function("issubclass", V, V, z3.BoolSort())
        ta = cls_term(a) if isinstance(a, ClassInfo) else to_term(a)
        tb = cls_term(b) if isinstance(b, ClassInfo) else to_term(b)
        return [(st, SBool(f(ta, tb)))]
    raise Unsupported("issubclass")


@func("builtins.type")
def _(E, st, ca, ctx):
    v = a1(ca)[0]
    if isinstance(v, Ref):
        return [(st, st.obj(v).cls)]
    if isinstance(v, SV):
        if isinstance(v.cls, ClassInfo):
            return [(st, v.cls)]
        return [(st, SV(attr_fun("__class__")(v.t), "type"))]
    k = kind(v)
    nm = {"none": "builtins.NoneType", "bool": "builtins.bool", "int": "builtins.int", "str": "builtins.str",
          "tuple": "builtins.tuple"}.get(k)
    if nm:
        return [(st, Ext(nm))]
    if isinstance(v, (ClassInfo,)):
        return [(st, Ext("builtins.type"))]
    return [(st, SV(fresh_v("type"), "type"))]


@func("builtins.getattr")
def _(E, st, ca, ctx):
    p = a1(ca)
    o, name = p[0], p[1]
    if not isinstance(name, str):
        h = E.schema.get(("getattr", "dynamic"))
        if h is not None:
            return h(E, st, o, name, p[2] if len(p) > 2 else UNBOUND, ctx)
        raise Unsupported("getattr with a symbolic name")
    if len(p) == 2:
        return E.getattr(st, o, name, ctx)
    out = []
    for s, v in E.getattr(st, o, name, ctx, missing=None):
        out.append((s, p[2] if isinstance(v, Unbound) else v))
    return out


@func("builtins.hasattr")
def _(E, st, ca, ctx):
    o, name = a1(ca)
    if not isinstance(name, str):
        h = E.schema.get(("hasattr", "dynamic"))
        if h is not None:
            return h(E, st, o, name, ctx)
        raise Unsupported("hasattr with a symbolic name")
    h = E.schema.get(("hasattr", name))
    if h is not None:
        return h(E, st, o, ctx)
    if isinstance(o, SV) and not isinstance(o.cls, ClassInfo):
        f = z3.Function("has_" + name, V, z3.BoolSort())
        return [(st, SBool(f(o.t)))]
    return [(s, not isinstance(v, Unbound)) for s, v in E.getattr(st, o, name, ctx, missing=None)]


@func("builtins.setattr")
def _(E, st, ca, ctx):
    o, name, v = a1(ca)
    if not isinstance(name, str):
        h = E.schema.get(("setattr", "dynamic"))
        if h is not None:
            return h(E, st, o, name, v, ctx)
        raise Unsupported("setattr with a symbolic name")
    return [(s, None) for s in E.setattr(st, o, name, v, ctx)]


@func("builtins.delattr")
def _(E, st, ca, ctx):
    o, name = a1(ca)
    return [(s, None) for s in delattr_(E, st, o, name, ctx)]


@func("builtins.any", "builtins.all")
def _(E, st, ca, ctx):
    raise Unsupported("any/all of a non-generator")


@func("builtins.sorted")
def _(E, st, ca, ctx):
    h = E.schema.get(("builtins", "sorted"))
    if h is not None:
        return h(E, st, ca, ctx)
    raise Unsupported("sorted")


@func("builtins.print", "warnings.warn")
def _(E, st, ca, ctx):
    return [(st, None)]


@func("builtins.object")
def _(E, st, ca, ctx):
    return [E.alloc(st, Ext("builtins.object"))]


@func("contextlib.suppress")
def _(E, st, ca, ctx):
    return [E.alloc(st, Ext("contextlib.suppress"), {"excs": tuple(ca.pos)}, kind="suppress")]


@func("functools.partial")
def _(E, st, ca, ctx):
    if not ca.pos:
        raise Unsupported("partial with a symbolic callable")
    return [(st, Partial(ca.pos[0], ca.pos[1:], ca.kw, ca.star, ca.kwstar))]


@func("typing.cast")
def _(E, st, ca, ctx):
    return [(st, ca.pos[1])]


@func("threading.RLock")
def _(E, st, ca, ctx):
    return [E.alloc(st, Ext("threading.RLock"), {"depth": 0}, kind="rlock")]


@func("threading.Lock")
def _(E, st, ca, ctx):
    return [E.alloc(st, Ext("threading.Lock"), {"depth": 0, "reentrant": False}, kind="rlock")]


@func("types.MappingProxyType")
def _(E, st, ca, ctx):
    x = ca.pos[0]
    if isinstance(x, Ref) and st.obj(x).kind == "dict":
        return [E.alloc(st, Ext("types.MappingProxyType"), data=st.obj(x).data, kind="mapproxy")]
    return [(st, x)]


@func("itertools.chain")
def _(E, st, ca, ctx):
    h = E.schema.get(("itertools", "chain"))
    if h is not None:
        return h(E, st, ca, ctx)
    outs = [(st, Seq.of([]))]
    for x in a1(ca):
        outs = [(s2, seq_concat(acc, sq)) for s, acc in outs for s2, sq in iterate(E, s, x, ctx)]
    return outs


@func("weakref.finalize")
def _(E, st, ca, ctx):
    # registers a callback to run when the object is collected; may raise TypeError
    out = []
    b = fresh_bool("weakrefable")
    h = E.schema.get(("weakref", "finalize"))
    if h is not None:
        return h(E, st, ca, ctx)
    g = st.ghost.get("finalizers", ())
    for s, ok in E.split(st, b):
        if ok:
            out.append((s.g(finalizers=g + ((ca.pos[0], ca.pos[1], tuple(ca.pos[2:])),)), None))
        else:
            E.raise_(s, ctx, "TypeError")
    return out


weakrefable = z3.Function("weakrefable", V, z3.BoolSort())


@func("weakref.ref")
def _(E, st, ca, ctx):
    """weakref.ref(obj[, cb]): TypeError for objects without __weakref__"""
    obj = ca.pos[0]
    cb = ca.pos[1] if len(ca.pos) > 1 else None
    out = []
    t = cls_term(obj) if isinstance(obj, ClassInfo) else to_term(obj)
    for s, ok in E.split(st, weakrefable(t)):
        if ok:
            out.append(E.alloc(s, Ext("weakref.ref"), {"target": obj, "callback": cb}, kind="weakref"))
        else:
            E.raise_(s, ctx, "TypeError")
    return out


alive = z3.Function("alive", V, z3.BoolSort())


@prim("weakref.__call__")
def _(E, st, o, ca, ctx):
    ob = st.obj(o)
    t = ob.fields["target"]
    out = []
    tt = cls_term(t) if isinstance(t, ClassInfo) else to_term(t)
    for s, b in E.split(st, alive(tt)):
        out.append((s, t if b else None))
    return out


threads = "thread"


@func("threading.current_thread")
def _(E, st, ca, ctx):
    return [(st, SV(z3.Const("current_thread", V), "thread"))]


@func("threading.main_thread")
def _(E, st, ca, ctx):
    return [(st, SV(z3.Const("main_thread", V), "thread"))]


@func("functools.reduce")
def _(E, st, ca, ctx):
    h = E.schema.get(("functools", "reduce"))
    if h is not None:
        return h(E, st, ca, ctx)
    raise Unsupported("reduce")


def _viewed(h, method=False):
    def f(E, st, *a):
        ca = a[-2]
        args = ([a[0]] if method else []) + list(ca.pos)
        views = tuple(x for x in args if isinstance(x, Ref) and st.obj(x).kind in ("list", "deque", "dict", "set"))
        for x in args:
            if isinstance(x, Seq) and x.kind:
                views += tuple(x.kind)
        out = []
        for s, v in h(E, st, *a):
            if views and isinstance(v, Seq):
                v = Seq(v.n, v._at, v.items, v.note, views)
            out.append((s, v))
        return out
    return f


for _n in ("builtins.enumerate", "builtins.zip", "builtins.reversed"):
    FUNCS[_n] = _viewed(FUNCS[_n])
for _n in ("dict.items", "dict.keys", "dict.values"):
    if _n in PRIMS:
        PRIMS[_n] = _viewed(PRIMS[_n], True)


@func("collections.defaultdict")
def _defaultdict(E, st, ca, ctx):
    if ca.kw or ca.star is not None or len(ca.pos) > 1:
        raise Unsupported("defaultdict with contents")
    return [E.alloc(st, Ext("collections.defaultdict"), {"default_factory": ca.pos[0] if ca.pos else None}, data=DictC({}), kind="dict")]


@func("warnings.catch_warnings")
def _catch_warnings(E, st, ca, ctx):
    if "record" in ca.kw or ca.pos:
        raise Unsupported("recording warnings")
    E.schema.setdefault(("warnctx", "with"), lambda E, st, cm, body, ctx: body(st, None))
    return [(st, SV(fresh_v("warnctx"), "warnctx"))]


@func("warnings.simplefilter", "warnings.filterwarnings")
def _simplefilter(E, st, ca, ctx):
    return [(st, None)]
