"""Symbolic executor for the Python subset /repo uses: turns the real source (AST, read from
/repo/src on every run) into paths.  Every construct outside the subset raises Unsupported, so a
unit is then *undecided*, never silently accepted or refuted.
"""
from __future__ import annotations

import ast
import builtins
import itertools
import time

import z3

from . import lib
from .front import ClassInfo, Loader, Module
from .values import (ALLOC, BM, UNBOUND, DictC, DictS, Ext, Fn, Mod, Obj, Partial, Poison, Ref, SBool,
                     Seq, SetC, SetS, SInt, Slice, St, Super, SV, Unbound, Unsupported, V,
                     fresh_bool, fresh_fun, fresh_int, fresh_seq, fresh_v, from_term, intern_id,
                     is_lit, ite, mkbool, mkint, seq_append, seq_concat, seq_delete, seq_insert,
                     seq_len, seq_reverse, seq_set, seq_step, seq_sub, serial_now, to_term, zb, zi,
                     zlen)


STAR_OK = {"functools.partial", "builtins.print", "warnings.warn"}


class Ctx:
    __slots__ = ("mod", "frames", "fn", "sink", "yield_k", "gen", "handling", "depth", "cls", "selfarg")

    def __init__(self, mod, frames, fn, sink, depth=0):
        self.mod, self.frames, self.fn, self.sink = mod, frames, fn, sink
        self.yield_k = None
        self.gen = None
        self.handling = ()
        self.depth = depth
        self.cls = None
        self.selfarg = None

    def child(self, **kw):
        c = Ctx(self.mod, self.frames, self.fn, self.sink, self.depth)
        c.yield_k, c.gen, c.handling = self.yield_k, self.gen, self.handling
        c.cls, c.selfarg = self.cls, self.selfarg
        for k, v in kw.items():
            setattr(c, k, v)
        return c


_has_q_cache: dict = {}


def has_quant(t):
    k = t.get_id()
    r = _has_q_cache.get(k)
    if r is None or r[0] is not t.ctx:
        res = _hq(t, set())
        _has_q_cache[k] = (t.ctx, res, t)
        return res
    return r[1]


def _hq(t, seen):
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def local_names(node):
    """Names bound in a function body (not descending into nested functions)."""
    c = getattr(node, "_locals", None)
    if c is not None:
        return c
    names = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    glob = set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # only walrus targets leak
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for b in body:
        walk(b)
    names -= glob
    node._locals = names
    return names


def is_generator(node):
    c = getattr(node, "_isgen", None)
    if c is not None:
        return c

    def walk(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return any(walk(x) for x in ast.iter_child_nodes(n))

    r = isinstance(node.body, list) and any(walk(b) for b in node.body)
    node._isgen = r
    return r


def deco_names(node):
    out = []
    for d in getattr(node, "decorator_list", []):
        if isinstance(d, ast.Name):
            out.append(d.id)
        elif isinstance(d, ast.Attribute):
            out.append(d.attr)
        elif isinstance(d, ast.Call):
            f = d.func
            out.append(f.id if isinstance(f, ast.Name) else getattr(f, "attr", "?"))
    return out


def _unchanged(st0, views, body):
    datas = [(v, st0.d(v)) for v in views]

    def b(s, elem, k):
        pre = [(v, s.d(v)) for v, _ in datas]
        res = body(s, elem, k)
        for kind, s2, _ in res:
            if kind in ("n", "cont") and any(s2.d(v) is not d for v, d in pre):
                raise Unsupported("container modified while iterating over a view of it")
        return res
    return b


class CallArgs:
    """Positional arguments (leading concrete ones, then optional symbolic sequence) and keywords."""
    __slots__ = ("pos", "star", "kw", "kwstar")

    def __init__(self, pos=(), star=None, kw=None, kwstar=None):
        self.pos, self.star, self.kw, self.kwstar = list(pos), star, dict(kw or {}), kwstar

    def seq(self):
        s = Seq.of(self.pos)
        return s if self.star is None else seq_concat(s, self.star)


CONFIGS = ({}, {"auto_config": False}, {"mbqi": False}, {})


def portfolio(assertions, timeout):
    """z3 under several instantiation strategies: a short run of each, then the rest of the time for the first"""
    short, left = max(200, timeout // 5), timeout
    r, s = z3.unknown, None
    for i, cfg in enumerate(CONFIGS):
        s = z3.Solver()
        s.set("timeout", short if i < len(CONFIGS) - 1 else max(left, short))
        for k, v in cfg.items():
            s.set(k, v)
        s.add(*assertions)
        t0 = time.time()
        r = s.check()
        if r != z3.unknown:
            break
        left -= int((time.time() - t0) * 1000)
        if i == 0:
            gaveup = left > timeout - 0.7 * short     # z3 gave up by itself: more time does not help
        elif i == len(CONFIGS) - 2 and gaveup:
            break
    return r, s


class Engine:
    def __init__(self, loader: Loader, limits=None):
        self.loader = loader
        self.stubs = {}            # qual -> handler(engine, st, callargs, ctx, fn) -> [(st,val)] (exceptions to ctx.sink)
        self.schema = {}           # (class name or tag, attr) -> hint | callable(engine, st, sv) -> value
        self.user_call = None      # handler for calls of opaque callables
        self.user_excs = lib.USER_EXCS
        self.user_attr = None      # handler for attribute reads of opaque objects
        self.loop_specs = {}
        self.on_yield = None           # ghost hook: fn(E, st, value yielded, ctx) -> st       # qual -> fn(L) -> forms
        self.on_attr_write = None
        self.on_lock = None            # fn(E, st, lock, "acquire"|"release") -> st: what other threads do while the lock is free
        self.inlined = set()       # quals of functions executed by inlining
        self.stubbed = set()
        self.assumptions = set()
        self.max_paths = 4000
        self.npaths = 0
        self.solver_time = 0.0
        self.nfeas = 0
        self.deadline = None
        self.bounded = None        # unroll bound for symbolic loops (bounded mode), or None
        self.oids = itertools.count(1)
        self.tainted = []
        self.on_format = None
        self.setup_oids = set()
        self.loop_log = []
        self.fn_cache = {}
        self.prim = lib.PRIMS
        self.eq_atoms = set()

    # ------------------------------------------------------------------ solver helpers
    def feasible(self, st, cond=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the unit exhausted")
        if cond is not None:
            lit = is_lit(cond)
            if lit is not None:
                return bool(lit)
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 1500)
        for c in st.pc:
            if not has_quant(c):
                s.add(c)
        if cond is not None:
            s.add(cond)
        r = s.check()
        self.nfeas += 1
        self.solver_time += time.time() - t0
        return r != z3.unsat

    def entails(self, st, cond, timeout=1500):
        lit = is_lit(cond)
        if lit or (lit is not None and not any(has_quant(c) for c in st.pc)):
            return bool(lit)
        t0 = time.time()
        r, _ = portfolio([*st.pc, z3.Not(cond)], timeout)
        self.solver_time += time.time() - t0
        return r == z3.unsat

    def split(self, st, cond):
        """[(st_true, True), (st_false, False)] restricted to the feasible ones."""
        if isinstance(cond, bool):
            return [(st, cond)]
        cond = z3.simplify(cond)
        lit = is_lit(cond)
        if lit is not None:
            return [(st, bool(lit))]
        out = []
        t = self.feasible(st, cond)
        f = self.feasible(st, z3.Not(cond)) if t else True
        if t and f:
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Unsupported("too many paths")
        if t:
            out.append((st.assume(cond), True))
        if f:
            out.append((st.assume(z3.Not(cond)), False))
        return out

    # ------------------------------------------------------------------ heap
    def alloc(self, st, cls, fields=None, data=None, kind="obj"):
        oid = next(self.oids)
        ALLOC[oid] = serial_now()
        if fields and kind == "obj" and isinstance(cls, ClassInfo):
            self.setup_oids.add(oid)      # an object whose state a contract describes
        return st.put(oid, Obj(cls, fields or {}, data, kind)), Ref(oid)

    def new_list(self, st, seq, kind="list"):
        return self.alloc(st, Ext("builtins." + kind) if kind != "deque" else Ext("collections.deque"),
                          data=seq, kind=kind)

    def new_exc(self, st, cls, args=(), **fields):
        f = {"args": tuple(args), "__cause__": None, "__traceback__": None}
        f.update(fields)
        return self.alloc(st, cls, f, kind="exc")

    def raise_(self, st, ctx, cls, args=()):
        if isinstance(cls, str):
            cls = Ext("builtins." + cls)
        st, e = self.new_exc(st, cls, args)
        ctx.sink.append((st, e))
        return []

    # ------------------------------------------------------------------ names
    def func_of(self, node, mod, qual, owner=None):
        key = id(node)
        if key not in self.fn_cache:
            self.fn_cache[key] = Fn(node, mod, (), None, None, qual, owner, tuple(deco_names(node)))
        return self.fn_cache[key]

    def fn(self, mod, qual):
        """Fn for 'Class.method' or 'function' of a module of the code base."""
        m = self.loader.module(mod)
        if m is None:
            raise Unsupported(f"module {mod} not found")
        parts = qual.split(".")
        if len(parts) == 1:
            e = m.names.get(parts[0])
            if e is None or e[0] != "func":
                raise Unsupported(f"{mod}:{qual} not found")
            return self.func_of(e[1], m, f"{mod}:{qual}")
        try:
            c = self.loader.cls(mod, parts[0])
        except KeyError:
            raise Unsupported(f"class {mod}:{parts[0]} not found")
        for k in c.mro():
            if isinstance(k, ClassInfo) and parts[1] in k.attrs:
                a = k.attrs[parts[1]]
                if isinstance(a, ast.FunctionDef):
                    return self.func_of(a, k.mod, f"{k.mod.name}:{k.name}.{parts[1]}", k)
        raise Unsupported(f"{mod}:{qual} not found")

    def module_value(self, st, mod, name):
        """value of a module-level constant (a sentinel, say) of the code base"""
        return self.global_value(st, self.loader.module(mod), name)[1]

    def global_value(self, st, mod, name):
        """-> (st, value) or None"""
        e = mod.names.get(name)
        if e is None:
            if hasattr(builtins, name):
                return st, Ext("builtins." + name)
            if name in ("__name__",):
                return st, mod.name
            raise Unsupported(f"name {name} in {mod.name}")
        if e[0] == "func":
            return st, self.func_of(e[1], mod, f"{mod.name}:{name}")
        if e[0] == "class":
            return st, e[1]
        if e[0] == "import":
            m = self.loader.module(e[1])
            if m is not None:
                if e[2] in m.names:
                    return self.global_value(st, m, e[2])
                m2 = self.loader.module(f"{e[1]}.{e[2]}")
                if m2 is not None:
                    return st, Mod(m2)
                if m.name == "_collections_abc" or m.name.startswith("psygnal"):
                    return st, Ext(f"{e[1]}.{e[2]}")
            return st, Ext(f"{e[1]}.{e[2]}")
        if e[0] == "module":
            m = self.loader.module(e[1])
            return st, (Mod(m) if m is not None else Ext(e[1]))
        if e[0] == "expr":
            oid = ("glob", mod.name, name)
            if oid in st.heap:
                o = st.heap[oid]
                return st, (o.data if o.kind == "const" else Ref(oid))
            node = e[1]
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("object", "TypeVar", "ParamSpec"):
                return st, Ext(f"{mod.name}.{name}")
            if isinstance(node, ast.Subscript):      # typing aliases
                return st, Ext(f"{mod.name}.{name}")
            mutable_call = isinstance(node, ast.Call) and not node.args and ast.unparse(node.func).split(".")[-1] in (
                "set", "dict", "list", "deque", "defaultdict", "OrderedDict", "WeakSet", "WeakKeyDictionary", "WeakValueDictionary", "Counter")
            if mutable_call or isinstance(node, (ast.Dict, ast.List, ast.Set)) and not ast.dump(node).count("elts=[]") == 0 or \
                    (isinstance(node, ast.Dict) and not node.keys):
                # module-level mutable: contents at call time are arbitrary unless the unit set them
                h = self.schema.get(("glob", f"{mod.name}.{name}"))
                if h is not None:
                    st, v = h(self, st)
                    st = st.put(oid, Obj(None, {}, v, "const"))
                    return st, v
                raise Unsupported(f"module global {mod.name}.{name} (mutable) has no model")
            h = self.schema.get(("glob", f"{mod.name}.{name}"))
            if h is not None:
                return h(self, st)
            ctx = Ctx(mod, (), None, [])
            r = self.ev(node, st, ctx)
            if len(r) != 1 or ctx.sink:
                raise Unsupported(f"global {name}")
            st2, v = r[0]
            return st2, v
        raise Unsupported(f"global {name}")

    def lookup(self, name, st, ctx):
        for oid, names in ctx.frames:
            if name in names:
                v = st.heap[oid].fields.get(name, UNBOUND)
                if isinstance(v, Unbound):
                    self.raise_(st, ctx, "UnboundLocalError", (name,))
                    return []
                if isinstance(v, Poison):
                    raise Unsupported(f"variable {name}: {v.why}")
                return [(st, v)]
        return [self.global_value(st, ctx.mod, name)]

    def bind_name(self, st, ctx, name, v):
        for oid, names in ctx.frames:
            if name in names:
                return st.put(oid, st.heap[oid].with_field(name, v))
        # global assignment
        return st.put(("glob", ctx.mod.name, name), Obj(None, {}, v, "const"))

    # ------------------------------------------------------------------ expressions
    def evs(self, nodes, st, ctx):
        outs = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(n, s, ctx):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def ev(self, n, st, ctx):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, st, ctx)

    def ev_Constant(self, n, st, ctx):
        return [(st, n.value)]

    def ev_Name(self, n, st, ctx):
        return self.lookup(n.id, st, ctx)

    def ev_Attribute(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            out += self.getattr(s, v, n.attr, ctx)
        return out

    def ev_Tuple(self, n, st, ctx):
        return self._ev_elts(n.elts, st, ctx, lambda s, seq: [(s, tuple(seq.items) if seq.items is not None else seq)])

    def ev_List(self, n, st, ctx):
        return self._ev_elts(n.elts, st, ctx, lambda s, seq: [self.new_list(s, seq)])

    def ev_Set(self, n, st, ctx):
        def mk(s, seq):
            return lib.make_set(self, s, seq, ctx)
        return self._ev_elts(n.elts, st, ctx, mk)

    def _ev_elts(self, elts, st, ctx, k):
        outs = [(st, Seq.of([]))]
        for e in elts:
            nxt = []
            for s, acc in outs:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, ctx):
                        for s3, sq in lib.iterate(self, s2, v, ctx):
                            nxt.append((s3, seq_concat(acc, sq)))
                else:
                    for s2, v in self.ev(e, s, ctx):
                        nxt.append((s2, seq_append(acc, v)))
            outs = nxt
        r = []
        for s, seq in outs:
            r += k(s, seq)
        return r

    def ev_Dict(self, n, st, ctx):
        outs = [(st, DictC({}))]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, d in outs:
                if k is None:
                    for s2, m in self.ev(v, s, ctx):
                        nxt.append((s2, lib.dict_merge(self, s2, d, lib.dict_payload(self, s2, m))))
                else:
                    for s2, (kv, vv) in [(a, b) for a, b in self.evs([k, v], s, ctx)]:
                        nxt.append((s2, lib.dict_set(self, s2, d, kv, vv)))
            outs = nxt
        return [self.alloc(s, Ext("builtins.dict"), data=d, kind="dict") for s, d in outs]

    def ev_JoinedStr(self, n, st, ctx):
        outs = [(st, [])]
        tmpl = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                tmpl.append(p.value)
                continue
            tmpl.append(None)
            nxt = []
            for s, vs in outs:
                mark = len(ctx.sink)
                try:
                    r = self.ev(p.value, s, ctx)
                    # formatting is treated as pure, unless the contract says otherwise (on_format may add faults to the sink)
                    for s2, v in r:
                        if self.on_format is not None:
                            self.on_format(self, s2, v, p.conversion, ctx)
                        nxt.append((s2, vs + [(v, p.conversion)]))
                except Unsupported:
                    del ctx.sink[mark:]
                    nxt.append((s, vs + [(SV(fresh_v("fmt")), -1)]))
            outs = nxt
        res = []
        for s, vs in outs:
            res.append((s, lib.format_str(tmpl, vs)))
        return res

    def ev_FormattedValue(self, n, st, ctx):
        return self.ev(n.value, st, ctx)

    def ev_Lambda(self, n, st, ctx):
        return self._mkfn(n, st, ctx, "<lambda>")

    def _mkfn(self, n, st, ctx, name):
        a = n.args
        outs = self.evs(a.defaults, st, ctx)
        res = []
        for s, dv in outs:
            kwn = [(i, d) for i, d in enumerate(a.kw_defaults) if d is not None]
            for s2, kv in self.evs([d for _, d in kwn], s, ctx):
                kwd = {a.kwonlyargs[i].arg: v for (i, _), v in zip(kwn, kv)}
                qual = (ctx.fn.qual if ctx.fn else ctx.mod.name + ":") + ".<locals>." + name
                f = Fn(n, ctx.mod, ctx.frames, dv, kwd, qual, None, tuple(deco_names(n)))
                res.append((s2, f))
        return res

    def ev_NamedExpr(self, n, st, ctx):
        return [(self.bind_name(s, ctx, n.target.id, v), v) for s, v in self.ev(n.value, st, ctx)]

    def ev_IfExp(self, n, st, ctx):
        out = []
        for s, c in self.ev_cond(n.test, st, ctx):
            out += self.ev(n.body if c else n.orelse, s, ctx)
        return out

    def ev_cond(self, n, st, ctx):
        """[(st, bool)] of feasible branches"""
        out = []
        for s, v in self.ev(n, st, ctx):
            for s2, c in self.truth(s, v, ctx):
                out += self.split(s2, c)
        return out

    def ev_BoolOp(self, n, st, ctx):
        outs = [(st, None, False)]
        res = []
        is_and = isinstance(n.op, ast.And)
        cur = [st]
        for idx, e in enumerate(n.values):
            nxt = []
            last = idx == len(n.values) - 1
            for s in cur:
                for s2, v in self.ev(e, s, ctx):
                    if last:
                        res.append((s2, v))
                        continue
                    merge = (not is_and and idx == len(n.values) - 2 and isinstance(n.values[-1], ast.Constant)
                             and isinstance(n.values[-1].value, str) and isinstance(v, SV) and v.cls in (None, "str"))
                    for s3, c in self.truth(s2, v, ctx):
                        if merge and not isinstance(c, bool):
                            r = ite(c, v, n.values[-1].value)
                            res.append((s3, SV(r.t, "str") if isinstance(r, SV) else r))
                            continue
                        for s4, b in self.split(s3, c):
                            if b == is_and:
                                nxt.append(s4)
                            else:
                                vv = v
                                if isinstance(v, (SBool, bool)):
                                    vv = b
                                res.append((s4, vv))
            cur = nxt
        return res

    def ev_UnaryOp(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.operand, st, ctx):
            if isinstance(n.op, ast.Not):
                for s2, c in self.truth(s, v, ctx):
                    out.append((s2, (not c) if isinstance(c, bool) else mkbool(z3.Not(c))))
            elif isinstance(n.op, ast.USub):
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    out.append((s, -v))
                else:
                    out.append((s, mkint(-zi(v))))
            elif isinstance(n.op, ast.UAdd):
                out.append((s, v))
            else:
                raise Unsupported("unary op")
        return out

    def ev_BinOp(self, n, st, ctx):
        out = []
        for s, (a, b) in self.evs([n.left, n.right], st, ctx):
            out += lib.binop(self, s, type(n.op).__name__, a, b, ctx)
        return out

    def ev_Compare(self, n, st, ctx):
        res = []
        cur = [(st, None)]
        for s, left in self.ev(n.left, st, ctx):
            states = [(s, left)]
            for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
                nxt = []
                last = i == len(n.ops) - 1
                for s1, l in states:
                    for s2, r in self.ev(rn, s1, ctx):
                        for s3, c in self.compare(s2, type(op).__name__, l, r, ctx):
                            if last:
                                res.append((s3, c))
                            else:
                                for s4, tc in self.truth(s3, c, ctx):
                                    for s5, b in self.split(s4, tc):
                                        if b:
                                            nxt.append((s5, r))
                                        else:
                                            res.append((s5, False))
                states = nxt
        return res

    def compare(self, st, op, a, b, ctx):
        """-> [(st, value)]"""
        if op in ("Is", "IsNot"):
            c = lib.ident(self, st, a, b)
            if op == "IsNot":
                c = (not c) if isinstance(c, bool) else z3.Not(c)
            return [(st, mkbool(c))]
        if op in ("Eq", "NotEq"):
            out = []
            for s, c in self.equal(st, a, b, ctx):
                if op == "NotEq":
                    c = (not c) if isinstance(c, bool) else z3.Not(c)
                out.append((s, mkbool(c)))
            return out
        if op in ("In", "NotIn"):
            out = []
            for s, c in lib.contains(self, st, b, a, ctx):
                if op == "NotIn":
                    c = (not c) if isinstance(c, bool) else z3.Not(c)
                out.append((s, mkbool(c)))
            return out
        # ordering
        a, b = lib.as_int(self, st, a), lib.as_int(self, st, b)
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
            f = {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]
            try:
                return [(st, f())]
            except TypeError:
                return self.raise_(st, ctx, "TypeError")
        if lib.is_intlike(a) and lib.is_intlike(b):
            x, y = zi(a), zi(b)
            c = {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
            return [(st, mkbool(c))]
        m = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
        f = self.class_attr_fn(st, a, m)
        if f is not None:
            return self.call(st, BM(f, a), CallArgs([b]), ctx)
        r = lib.set_order(self, st, op, a, b, ctx)
        if r is not None:
            return r
        raise Unsupported(f"ordering {op} of {a!r} and {b!r}")

    # equality as the code computes it: [(st, z3 bool | bool)]
    def equal(self, st, a, b, ctx):
        r = lib.equal_basic(self, st, a, b)
        if r is not None:
            return [(st, r)]
        for x, y in ((a, b), (b, a)):
            f = self.class_attr_fn(st, x, "__eq__")
            if f is not None:
                out = []
                for s, v in self.call(st, BM(f, x), CallArgs([y]), ctx):
                    if isinstance(v, Ext) and v.name == "builtins.NotImplemented":
                        if x is a:
                            f2 = self.class_attr_fn(s, b, "__eq__")
                            if f2 is not None:
                                for s2, v2 in self.call(s, BM(f2, b), CallArgs([a]), ctx):
                                    if isinstance(v2, Ext):
                                        out.append((s2, lib.ident(self, s2, a, b)))
                                    else:
                                        out += self.truth(s2, v2, ctx)
                                continue
                        out.append((s, lib.ident(self, s, a, b)))
                    else:
                        out += self.truth(s, v, ctx)
                return out
        return [(st, lib.equal_opaque(self, st, a, b))]

    def truth(self, st, v, ctx):
        """-> [(st, bool | z3 Bool)]"""
        if isinstance(v, SV) and isinstance(v.cls, str):
            h = self.schema.get((v.cls, "truth"))
            if h is not None:
                return h(self, st, v, ctx)
        t = lib.truth_basic(self, st, v)
        if t is not None:
            return [(st, t)]
        for m in ("__bool__", "__len__"):
            f = self.class_attr_fn(st, v, m)
            if f is not None:
                out = []
                for s, r in self.call(st, BM(f, v), CallArgs([]), ctx):
                    out += self.truth(s, r, ctx)
                return out
        if isinstance(v, SV):
            return [(st, lib.truthy(v.t))]
        return [(st, True)]

    def ev_Subscript(self, n, st, ctx):
        out = []
        for s, o in self.ev(n.value, st, ctx):
            if isinstance(o, (ClassInfo, Ext)) and not lib.subscriptable_ext(o):
                out.append((s, o))          # Generic[...] in annotations/bases
                continue
            for s2, k in self.ev(n.slice, s, ctx):
                out += self.getitem(s2, o, k, ctx)
        return out

    def ev_Slice(self, n, st, ctx):
        parts = [n.lower, n.upper, n.step]
        outs = [(st, [])]
        for p in parts:
            nxt = []
            for s, vs in outs:
                if p is None:
                    nxt.append((s, vs + [None]))
                else:
                    nxt += [(s2, vs + [v]) for s2, v in self.ev(p, s, ctx)]
            outs = nxt
        return [(s, Slice(*vs)) for s, vs in outs]

    def ev_Starred(self, n, st, ctx):
        raise Unsupported("starred expression")

    def ev_Yield(self, n, st, ctx):
        raise Unsupported("yield in expression")

    def _comp(self, n, st, ctx, emit):
        """Run comprehension `n` calling emit(st, ctx2) -> outcomes for every element."""
        tgt = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    tgt.add(x.id)
        st, fr = self.alloc(st, None, {}, kind="frame")
        ctx2 = ctx.child(frames=((fr.oid, frozenset(tgt)),) + ctx.frames)

        def gen(i, s):
            if i == len(n.generators):
                return emit(s, ctx2)
            g = n.generators[i]

            def body(s1, elem, _n):
                res = []
                for s2 in self.assign(g.target, s1, elem, ctx2):
                    outs = [s2]
                    for cond in g.ifs:
                        nxt = []
                        for s3 in outs:
                            for s4, b in self.ev_cond(cond, s3, ctx2):
                                if b:
                                    nxt.append(s4)
                                else:
                                    res.append(("cont", s4, None))
                        outs = nxt
                    for s3 in outs:
                        res += gen(i + 1, s3)
                return res

            res = []
            ectx = ctx if i == 0 else ctx2
            for s1, itv in self.ev(g.iter, s, ectx):
                for s2, seq in lib.iterate(self, s1, itv, ectx):
                    mark = len(ctx2.sink)
                    res += self.for_loop(s2, seq, body, ctx2, loop_id=(ctx.fn.qual if ctx.fn else "", "comp"))
            return res
        return gen(0, st)

    def ev_ListComp(self, n, st, ctx):
        return self._comp_list(n, st, ctx)

    def _comp_list(self, n, st, ctx):
        # one-generator, filterless comprehension over a symbolic sequence with a pure element: map
        st, lst = self.new_list(st, Seq.of([]))

        def emit(s, c2):
            res = []
            for s2, v in self.ev(n.elt, s, c2):
                res.append(("n", s2.setd(lst, seq_append(s2.d(lst), v)), None))
            return res
        out = []
        for kind, s, v in self._comp(n, st, ctx, emit):
            if kind in ("n", "cont"):
                out.append((s, lst))
            else:
                raise Unsupported("comprehension outcome " + kind)
        return out

    def ev_GeneratorExp(self, n, st, ctx):
        # eager: see DESIGN (the elements of the generators used here have no side effects)
        r = lib.filtered_comp(self, n, st, ctx)
        if r is not None:
            return r
        return [(s, s.d(l)) for s, l in self._comp_list(n, st, ctx)]

    def ev_SetComp(self, n, st, ctx):
        r = lib.filtered_comp(self, n, st, ctx)
        out = []
        if r is None:
            r = [(s, s.d(l)) for s, l in self._comp_list(n, st, ctx)]
        for s, v in r:
            out += lib.make_set(self, s, v, ctx)
        return out

    def ev_DictComp(self, n, st, ctx):
        st, d = self.alloc(st, Ext("builtins.dict"), data=DictC({}), kind="dict")

        def emit(s, c2):
            res = []
            for s2, (k, v) in self.evs([n.key, n.value], s, c2):
                res.append(("n", s2.setd(d, lib.dict_set(self, s2, s2.d(d), k, v)), None))
            return res
        out = []
        for kind, s, v in self._comp(n, st, ctx, emit):
            if kind in ("n", "cont"):
                out.append((s, d))
            else:
                raise Unsupported("comprehension outcome " + kind)
        return out

    # ------------------------------------------------------------------ attributes
    def class_of(self, st, v):
        if isinstance(v, Ref):
            return st.obj(v).cls
        if isinstance(v, SV):
            return v.cls
        return None

    def class_lookup(self, cls, name, start_after=None):
        """(owner ClassInfo, attr) or (ext base name, None) or None"""
        if not isinstance(cls, ClassInfo):
            return None
        mro = cls.mro()
        if start_after is not None:
            mro = mro[mro.index(start_after) + 1:] if start_after in mro else []
        for k in mro:
            if isinstance(k, ClassInfo):
                if name in k.attrs:
                    return k, k.attrs[name]
            elif lib.ext_has_attr(k, name):
                return k, None
        return None

    def class_attr_fn(self, st, v, name):
        c = self.class_of(st, v)
        r = self.class_lookup(c, name)
        if r and isinstance(r[1], ast.FunctionDef):
            return self.func_of(r[1], r[0].mod, f"{r[0].mod.name}:{r[0].name}.{name}", r[0])
        return None

    def class_value(self, st, cls, name, ctx):
        """value of a (non-function) class attribute: [(st, v)] or None"""
        for k in cls.mro():
            if not isinstance(k, ClassInfo):
                continue
            oid = ("cls", k.qual)
            if oid in st.heap and name in st.heap[oid].fields:
                return [(st, st.heap[oid].fields[name])]
            if name in k.attrs:
                a = k.attrs[name]
                if isinstance(a, tuple) and a[0] == "assign":
                    h = self.schema.get((k.name, "@" + name))
                    if h is not None:
                        s, v = h(self, st)
                        s = self.set_class_value(s, k, name, v)
                        return [(s, v)]
                    if isinstance(a[1], ast.Call) and isinstance(a[1].func, ast.Name) and a[1].func.id == "object" and not a[1].args:
                        return [(st, Ext(f"{k.qual}.{name}"))]       # a sentinel
                    c = Ctx(k.mod, (), None, [])
                    r = self.ev(a[1], st, c)
                    return r
        return None

    def set_class_value(self, st, cls, name, v):
        oid = ("cls", cls.qual)
        o = st.heap.get(oid) or Obj(None, {}, None, "cls")
        return st.put(oid, o.with_field(name, v))

    def getattr(self, st, v, name, ctx, missing="raise"):
        """-> [(st, value)]; AttributeError goes to the sink (or, with missing=None, yields UNBOUND)"""
        if isinstance(v, Poison):
            raise Unsupported(f"poisoned value: {v.why}")
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o.cls, ClassInfo):
                return self._inst_attr(st, v, o.cls, name, ctx, o.fields, missing)
            if o.kind == "exc":
                if name in o.fields:
                    return [(st, o.fields[name])]
            r = lib.builtin_attr(self, st, v, o, name)
            if r is not None:
                return [(st, r)]
            return self._missing(st, v, name, ctx, missing)
        if isinstance(v, SV):
            if isinstance(v.cls, ClassInfo):
                return self._inst_attr(st, v, v.cls, name, ctx, None, missing)
            h = self.schema.get(("hasattr", name))
            if h is None:
                return self._opaque_attr(st, v, name, ctx, missing)
            out = []        # an attribute that may be missing: the contract says when
            for s, b in h(self, st, v, ctx):
                for s1, present in (self.split(s, b.t) if isinstance(b, SBool) else [(s, b)]):
                    out += self._opaque_attr(s1, v, name, ctx, missing) if present else self._missing(s1, v, name, ctx, missing)
            return out
        if isinstance(v, Super):
            return self._super_attr(st, v, name, ctx, missing)
        if isinstance(v, ClassInfo):
            return self._class_getattr(st, v, name, ctx, missing)
        if isinstance(v, Mod):
            if name in v.mod.names:
                return [self.global_value(st, v.mod, name)]
            sub = self.loader.module(f"{v.mod.name}.{name}")
            if sub is not None:
                return [(st, Mod(sub))]
            raise Unsupported(f"module attr {v.mod.name}.{name}")
        if isinstance(v, Ext):
            r = lib.ext_attr(self, st, v, name)
            return [(st, r)]
        r = lib.value_attr(self, st, v, name)
        if r is not None:
            return [(st, r)]
        return self._missing(st, v, name, ctx, missing)

    def _missing(self, st, v, name, ctx, missing):
        if missing == "raise":
            if isinstance(v, Ref) and v.oid in self.setup_oids and name not in st.obj(v).fields:
                raise Unsupported(f"attribute {name} of {st.obj(v).cls.name} is unknown to the contract")
            return self.raise_(st, ctx, "AttributeError", (name,))
        return [(st, UNBOUND)]

    def _opaque_attr(self, st, v, name, ctx, missing):
        h = self.schema.get((v.cls, name)) if isinstance(v.cls, str) else None
        if name in st.smap:
            return [(st, st.smap[name](v.t))]
        if h is not None:
            if callable(h):
                return h(self, st, v, ctx)
            f = lib.attr_fun(name)
            return [(st, from_term(f(v.t), h))]
        if self.user_attr is not None:
            r = self.user_attr(self, st, v, name, ctx, missing)
            if r is not None:
                return r
        r = lib.opaque_method(self, st, v, name)
        if r is not None:
            return [(st, r)]
        if isinstance(v.cls, str) and (v.cls, name) in lib.PLAIN_ATTRS:
            # an attribute about whose value nothing is known, not even that it tells objects apart
            return [(st, from_term(lib.attr_fun(name)(v.t), lib.PLAIN_ATTRS[(v.cls, name)]))]
        raise Unsupported(f"attribute {name} of opaque value {v}")

    def _inst_attr(self, st, v, cls, name, ctx, fields, missing):
        found = self.class_lookup(cls, name)
        if found and isinstance(found[1], ast.FunctionDef) and ("property" in deco_names(found[1])):
            f = self.func_of(found[1], found[0].mod, f"{found[0].mod.name}:{found[0].name}.{name}", found[0])
            return self.call(st, BM(f, v), CallArgs([]), ctx)
        if name == "__class__":
            return [(st, cls)]
        if name == "__dict__":
            raise Unsupported("__dict__")
        if fields is not None and name in fields:
            val = fields[name]
            if isinstance(val, Poison):
                raise Unsupported(f"field {name}: {val.why}")
            if isinstance(val, Unbound):
                return self._missing(st, v, name, ctx, missing)
            return [(st, val)]
        if fields is None and name in st.smap:
            return [(st, st.smap[name](v.t))]
        if fields is None:
            for k in cls.mro():
                kn = k.name if isinstance(k, ClassInfo) else k
                h = self.schema.get((kn, name))
                if h is not None:
                    if callable(h):
                        return h(self, st, v, ctx)
                    f = lib.attr_fun(name)
                    return [(st, from_term(f(v.t), h))]
        if found:
            owner, a = found
            if isinstance(a, ast.FunctionDef):
                return self._bind(st, v, owner, a, name, cls)
            if isinstance(a, tuple) and a[0] == "assign":
                r = self.class_value(st, cls, name, ctx)
                out = []
                for s, cv in r:
                    out += self._desc_get(s, cv, v, cls, name, ctx)
                return out
            if a is None:
                b = lib.ext_base_attr(self, st, v, owner, name)
                if b is not None:
                    return [(st, b)]
        h = self.schema.get((cls.name, "*"))
        if h is not None:
            r = h(self, st, v, name, ctx, missing)
            if r is not None:
                return r
        ga = self.class_lookup(cls, "__getattr__")
        if ga and isinstance(ga[1], ast.FunctionDef):
            f = self.func_of(ga[1], ga[0].mod, f"{ga[0].mod.name}:{ga[0].name}.__getattr__", ga[0])
            if missing == "raise":
                return self.call(st, BM(f, v), CallArgs([name]), ctx)
            c2 = ctx.child(sink=[])
            out = self.call(st, BM(f, v), CallArgs([name]), c2)
            for s, e in c2.sink:
                if self.exc_isa(s, e, Ext("builtins.AttributeError")):
                    out.append((s, UNBOUND))
                else:
                    ctx.sink.append((s, e))
            return out
        if fields is None:
            raise Unsupported(f"no schema for field {cls.name}.{name}")
        return self._missing(st, v, name, ctx, missing)

    def _desc_get(self, st, cv, inst, cls, name, ctx):
        if isinstance(cv, Ref) and isinstance(st.obj(cv).cls, ClassInfo):
            g = self.class_lookup(st.obj(cv).cls, "__get__")
            if g:
                f = self.func_of(g[1], g[0].mod, f"{g[0].mod.name}:{g[0].name}.__get__", g[0])
                return self.call(st, BM(f, cv), CallArgs([inst, cls]), ctx)
        return [(st, cv)]

    def _bind(self, st, v, owner, a, name, cls):
        f = self.func_of(a, owner.mod, f"{owner.mod.name}:{owner.name}.{name}", owner)
        decos = deco_names(a)
        if "staticmethod" in decos:
            return [(st, f)]
        if "classmethod" in decos:
            return [(st, BM(f, cls))]
        return [(st, BM(f, v))]

    def _class_getattr(self, st, c, name, ctx, missing):
        if name == "__name__":
            return [(st, c.name)]
        if name in ("__qualname__",):
            return [(st, c.name)]
        if name == "__module__":
            return [(st, c.mod.name)]
        oid = None
        for k in c.mro():
            if isinstance(k, ClassInfo):
                key = ("cls", k.qual)
                if key in st.heap and name in st.heap[key].fields:
                    return [(st, st.heap[key].fields[name])]
                if name in k.attrs:
                    a = k.attrs[name]
                    if isinstance(a, ast.FunctionDef):
                        f = self.func_of(a, k.mod, f"{k.mod.name}:{k.name}.{name}", k)
                        if "classmethod" in deco_names(a):
                            return [(st, BM(f, c))]
                        return [(st, f)]
                    if a[0] == "class":
                        raise Unsupported("nested class")
                    return self.class_value(st, c, name, ctx)
        h = self.schema.get((c.name, "@" + name))
        if h is not None:
            s, v = h(self, st)
            return [(self.set_class_value(s, c, name, v), v)]
        return self._missing(st, c, name, ctx, missing)

    def _super_attr(self, st, v, name, ctx, missing):
        cls = self.class_of(st, v.obj) if not isinstance(v.obj, ClassInfo) else v.obj
        found = self.class_lookup(cls, name, start_after=v.cls)
        if found is None:
            b = lib.object_attr(self, st, v.obj, name)
            if b is not None:
                return [(st, b)]
            return self._missing(st, v, name, ctx, missing)
        owner, a = found
        if isinstance(a, ast.FunctionDef):
            if "property" in deco_names(a):
                f = self.func_of(a, owner.mod, f"{owner.mod.name}:{owner.name}.{name}", owner)
                return self.call(st, BM(f, v.obj), CallArgs([]), ctx)
            return self._bind(st, v.obj, owner, a, name, cls)
        if a is None:
            b = lib.ext_base_attr(self, st, v.obj, owner, name)
            if b is not None:
                return [(st, b)]
        raise Unsupported(f"super().{name}")

    def setattr(self, st, o, name, v, ctx):
        """-> [st]"""
        if isinstance(o, Ref):
            ob = st.obj(o)
            if isinstance(ob.cls, ClassInfo):
                found = self.class_lookup(ob.cls, name)
                if found and isinstance(found[1], ast.FunctionDef) and "property" in deco_names(found[1]):
                    return self._prop_set(st, o, ob.cls, name, v, ctx)
                sa = self.class_lookup(ob.cls, "__setattr__")
                if sa and isinstance(sa[1], ast.FunctionDef):
                    f = self.func_of(sa[1], sa[0].mod, f"{sa[0].mod.name}:{sa[0].name}.__setattr__", sa[0])
                    return [s for s, _ in self.call(st, BM(f, o), CallArgs([name, v]), ctx)]
                if sa and not (isinstance(sa[0], str) and sa[0].endswith("object")):
                    r = lib.ext_setattr(self, st, o, sa[0], name, v, ctx)
                    if r is not None:
                        return r
            if self.on_attr_write is not None:
                st = self.on_attr_write(self, st, o, name, v, ctx)
            if o.oid in self.setup_oids and name not in ob.fields and not self.class_lookup(ob.cls, name):
                st = st.g(_taint=st.ghost.get("_taint", frozenset()) | {"*"})     # state unknown to the contract: a refutation is not final
            return [st.setf(o, name, v)]
        if isinstance(o, SV):
            cls = o.cls
            if isinstance(cls, ClassInfo):
                found = self.class_lookup(cls, name)
                if found and isinstance(found[1], ast.FunctionDef) and "property" in deco_names(found[1]):
                    return self._prop_set(st, o, cls, name, v, ctx)
                return [self.sm_write(st, o, name, v)]
            h = self.schema.get((cls, "=")) if isinstance(cls, str) else None
            if h is not None:
                return h(self, st, o, name, v, ctx)
            raise Unsupported(f"setattr on opaque value ({name})")
        if isinstance(o, ClassInfo):
            for k in o.mro():
                if isinstance(k, ClassInfo):
                    return [self.set_class_value(st, o, name, v)]
        if isinstance(o, Fn):
            return [st.g(**{f"fnattr:{o.uid}:{name}": v})]
        raise Unsupported(f"setattr on {o!r}")

    def sm_write(self, st, o, name, v):
        old = st.smap.get(name)
        if old is None:
            f = lib.attr_fun(name)
            hint = None
            if isinstance(o.cls, ClassInfo):
                for k in o.cls.mro():
                    h = self.schema.get((k.name if isinstance(k, ClassInfo) else k, name))
                    if h is not None and not callable(h):
                        hint = h
                        break
            old = lambda t, f=f, hint=hint: from_term(f(t), hint)
        ot = o.t
        from .loops import SMap
        return st.sm(name, SMap(lambda t: ite(t == ot, v, old(t)), old, ot, v))

    def _prop_set(self, st, o, cls, name, v, ctx):
        for k in cls.mro():
            if isinstance(k, ClassInfo):
                s = k.attrs.get(name + "@setter")
                if s is not None:
                    f = self.func_of(s, k.mod, f"{k.mod.name}:{k.name}.{name}@setter", k)
                    return [s2 for s2, _ in self.call(st, BM(f, o), CallArgs([v]), ctx)]
                if name in k.attrs:
                    break
        return [s for s, _ in self.raise_(st, ctx, "AttributeError", (name,))]

    # ------------------------------------------------------------------ items
    def getitem(self, st, o, k, ctx):
        r = lib.getitem_basic(self, st, o, k, ctx)
        if r is not None:
            return r
        f = self.class_attr_fn(st, o, "__getitem__")
        if f is not None:
            return self.call(st, BM(f, o), CallArgs([k]), ctx)
        c = self.class_of(st, o)
        found = self.class_lookup(c, "__getitem__")
        if found and found[1] is None:
            b = lib.ext_base_attr(self, st, o, found[0], "__getitem__")
            return self.call(st, b, CallArgs([k]), ctx)
        raise Unsupported(f"subscript of {o!r}")

    def setitem(self, st, o, k, v, ctx):
        r = lib.setitem_basic(self, st, o, k, v, ctx)
        if r is not None:
            return r
        f = self.class_attr_fn(st, o, "__setitem__")
        if f is not None:
            return [s for s, _ in self.call(st, BM(f, o), CallArgs([k, v]), ctx)]
        raise Unsupported(f"item assignment on {o!r}")

    def delitem(self, st, o, k, ctx):
        r = lib.delitem_basic(self, st, o, k, ctx)
        if r is not None:
            return r
        f = self.class_attr_fn(st, o, "__delitem__")
        if f is not None:
            return [s for s, _ in self.call(st, BM(f, o), CallArgs([k]), ctx)]
        raise Unsupported(f"item deletion on {o!r}")

    # ------------------------------------------------------------------ calls
    def ev_Call(self, n, st, ctx):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            if ctx.cls is None:
                raise Unsupported("super() outside a method")
            for s, v in self.lookup(ctx.selfarg, st, ctx):
                return [(s, Super(ctx.cls, v))]
        sp = lib.special_call(self, n, st, ctx)
        if sp is not None:
            return sp
        out = []
        for s, f in self.ev(n.func, st, ctx):
            for s2, ca in self.ev_args(n, s, ctx):
                out += self.call(s2, f, ca, ctx)
        return out

    def ev_args(self, n, st, ctx):
        outs = [(st, CallArgs())]
        for a in n.args:
            nxt = []
            for s, ca in outs:
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev(a.value, s, ctx):
                        for s3, sq in lib.iterate(self, s2, v, ctx):
                            c = CallArgs(ca.pos, ca.star, ca.kw, ca.kwstar)
                            if sq.items is not None and c.star is None:
                                c.pos += sq.items
                            elif c.star is None:
                                c.star = sq
                            else:
                                c.star = seq_concat(c.star, sq)
                            nxt.append((s3, c))
                else:
                    for s2, v in self.ev(a, s, ctx):
                        c = CallArgs(ca.pos, ca.star, ca.kw, ca.kwstar)
                        if c.star is None:
                            c.pos.append(v)
                        else:
                            c.star = seq_append(c.star, v)
                        nxt.append((s2, c))
            outs = nxt
        for k in n.keywords:
            nxt = []
            for s, ca in outs:
                for s2, v in self.ev(k.value, s, ctx):
                    c = CallArgs(ca.pos, ca.star, ca.kw, ca.kwstar)
                    if k.arg is not None:
                        c.kw[k.arg] = v
                    else:
                        p = lib.dict_payload(self, s2, v)
                        if isinstance(p, DictC) and all(isinstance(x, str) for x in p.d):
                            c.kw.update(p.d)
                        else:
                            if c.kwstar is not None:
                                raise Unsupported("two symbolic ** arguments")
                            c.kwstar = v
                    nxt.append((s2, c))
            outs = nxt
        return outs

    def call(self, st, f, ca, ctx):
        """-> [(st, val)], exceptions to ctx.sink"""
        if isinstance(f, Poison):
            raise Unsupported(f"call of a poisoned value: {f.why}")
        if isinstance(f, BM):
            if isinstance(f.fn, Fn):
                c = CallArgs([f.self_] + ca.pos, ca.star, ca.kw, ca.kwstar)
                return self.call_fn(st, f.fn, c, ctx)
            if isinstance(f.fn, Ext):
                if f.fn.name in self.stubs:
                    self.stubbed.add(f.fn.name)
                    return self.stubs[f.fn.name](self, st, CallArgs([f.self_] + list(ca.pos), ca.star, ca.kw, ca.kwstar), ctx, f.fn)
                h = self.prim.get(f.fn.name)
                if h is None:
                    raise Unsupported(f"builtin method {f.fn.name}")
                if ca.star is not None and f.fn.name not in STAR_OK:
                    raise Unsupported(f"symbolic * in a call of {f.fn.name}")
                return h(self, st, f.self_, ca, ctx)
            return self.call(st, f.fn, CallArgs([f.self_] + ca.pos, ca.star, ca.kw, ca.kwstar), ctx)
        if isinstance(f, Fn):
            return self.call_fn(st, f, ca, ctx)
        if isinstance(f, ClassInfo):
            return self.instantiate(st, f, ca, ctx)
        if isinstance(f, Partial):
            kw = dict(f.kw)
            kw.update(ca.kw)
            if f.kwstar is not None and (ca.kwstar is not None or kw):
                raise Unsupported("mixed ** arguments of a partial")
            kws = f.kwstar if f.kwstar is not None else ca.kwstar
            if f.star is None:
                return self.call(st, f.fn, CallArgs(list(f.args) + ca.pos, ca.star, kw, kws), ctx)
            star = seq_concat(f.star, Seq.of(ca.pos)) if ca.pos else f.star
            if ca.star is not None:
                star = seq_concat(star, ca.star)
            return self.call(st, f.fn, CallArgs(list(f.args), star, kw, kws), ctx)
        if isinstance(f, Ext):
            if f.name in self.stubs:
                self.stubbed.add(f.name)
                return self.stubs[f.name](self, st, ca, ctx, f)
            h = lib.FUNCS.get(f.name)
            if h is None:
                ex = lib.exc_class(f.name)
                if ex:
                    return [self.new_exc(st, f, ca.pos)]
                raise Unsupported(f"external function {f.name}")
            if ca.star is not None and f.name not in STAR_OK:
                raise Unsupported(f"symbolic * in a call of {f.name}")
            return h(self, st, ca, ctx)
        if isinstance(f, Ref):
            o = st.obj(f)
            if o.kind in ("strong_ref", "weakref"):
                return self.prim["weakref.__call__"](self, st, f, ca, ctx)
            fn = self.class_attr_fn(st, f, "__call__")
            if fn is not None:
                return self.call(st, BM(fn, f), ca, ctx)
        if isinstance(f, SV):
            if isinstance(f.cls, ClassInfo):
                fn = self.class_attr_fn(st, f, "__call__")
                if fn is not None:
                    return self.call(st, BM(fn, f), ca, ctx)
            if isinstance(f.cls, str):
                h = self.schema.get((f.cls, "()"))
                if h is not None:
                    return h(self, st, f, ca, ctx)
            if self.user_call is not None:
                return self.user_call(self, st, f, ca, ctx)
        raise Unsupported(f"call of {f!r}")

    def instantiate(self, st, cls, ca, ctx):
        q = f"{cls.mod.name}:{cls.name}"
        if q in self.stubs:
            self.stubbed.add(q)
            return self.stubs[q](self, st, ca, ctx, cls)
        isexc = any((not isinstance(b, ClassInfo)) and lib.exc_class(b if b.startswith("builtins.") else "builtins." + b) for b in cls.mro())
        st, ref = self.alloc(st, cls, {}, kind="exc" if isexc else "obj")
        h = self.schema.get((cls.name, "new"))
        if h is not None:
            st = h(self, st, ref)
        init = self.class_lookup(cls, "__init__")
        if init and isinstance(init[1], ast.FunctionDef):
            f = self.func_of(init[1], init[0].mod, f"{init[0].mod.name}:{init[0].name}.__init__", init[0])
            return [(s, ref) for s, _ in self.call(st, BM(f, ref), ca, ctx)]
        if "typing.NamedTuple" in [b for b in cls.mro() if isinstance(b, str)]:
            names = [b.target.id for b in cls.node.body if isinstance(b, ast.AnnAssign)]
            if ca.star is not None:
                raise Unsupported("namedtuple star")
            vals = dict(zip(names, ca.pos))
            vals.update(ca.kw)
            return [(st.put(ref.oid, Obj(cls, vals, Seq.of([vals[n] for n in names]), "namedtuple")), ref)]
        if init and init[1] is None:
            b = lib.ext_base_attr(self, st, ref, init[0], "__init__")
            if b is not None:
                return [(s, ref) for s, _ in self.call(st, b, ca, ctx)]
        if ca.pos or ca.kw or ca.star is not None:
            raise Unsupported(f"construct {cls.name}")
        return [(st, ref)]

    def call_fn(self, st, f, ca, ctx, force_inline=False):
        q = f.qual
        h = None if force_inline else self.stubs.get(q)
        if h is not None:
            self.stubbed.add(q)
            return h(self, st, ca, ctx, f)
        if ctx.depth > 40:
            raise Unsupported("call depth")
        if "contextmanager" in f.deco:
            st, cm = self.alloc(st, Ext("gencm"), {"fn": f, "ca": ca}, kind="gencm")
            return [(st, cm)]
        if "<locals>" not in q:
            self.inlined.add(q)
        outs = []
        for s, fctx in self.bind_args(st, f, ca, ctx):
            node = f.node
            if isinstance(node, ast.Lambda):
                outs += self.ev(node.body, s, fctx)
                continue
            gen = is_generator(node)
            if gen:
                s, lst = self.new_list(s, Seq.of([]))
                fctx.gen = lst
            for kind, s2, v in self.ex_block(node.body, s, fctx):
                if kind == "raise":
                    ctx.sink.append((s2, v))
                elif kind in ("n", "ret"):
                    if gen:
                        outs.append((s2, s2.d(lst)))
                    else:
                        outs.append((s2, v if kind == "ret" else None))
                else:
                    raise Unsupported("outcome " + kind)
            # expression-level exceptions inside the body
            for s2, e in fctx.sink:
                ctx.sink.append((s2, e))
        return outs

    def bind_args(self, st, f, ca, ctx):
        node = f.node
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        names = local_names(node)
        vals = {}
        pos = list(ca.pos)
        star = ca.star
        kw = dict(ca.kw)
        # class defaults evaluated once, in the module scope
        defaults = f.defaults
        kwdefaults = f.kwdefaults
        mctx = Ctx(f.mod, (), None, ctx.sink, ctx.depth)
        if defaults is None:
            dn = [d.id for d in a.defaults if isinstance(d, ast.Name)]
            own = f.owner.attrs if isinstance(f.owner, ClassInfo) else {}
            if any(isinstance(own.get(x), tuple) and own[x][0] == "assign" for x in dn):
                r = [(st, tuple(self.class_value(st, f.owner, d.id, mctx)[0][1] if isinstance(d, ast.Name) and d.id in own
                                else self.ev(d, st, mctx)[0][1] for d in a.defaults))]
            else:
                r = self.evs(a.defaults, st, mctx)
            if len(r) != 1:
                raise Unsupported("default values")
            st, defaults = r[0]
            kwn = [(i, d) for i, d in enumerate(a.kw_defaults) if d is not None]
            r = self.evs([d for _, d in kwn], st, mctx)
            st, kv = r[0]
            kwdefaults = {a.kwonlyargs[i].arg: v for (i, _), v in zip(kwn, kv)}
        if star is not None and len(pos) < len(params) and star.items is None:
            lit = is_lit(star.zn())
            if lit is not None:
                pos += [star.at(j) for j in range(lit)]
                star = None
            else:
                raise Unsupported("symbolic *args bound to named parameters")
        for name, v in zip(params, pos):
            vals[name] = v
        rest = pos[len(params):]
        nd = len(defaults)
        for i, name in enumerate(params):
            if name in vals:
                if name in kw and name not in [x.arg for x in a.posonlyargs]:
                    return self.raise_(st, ctx, "TypeError", ("multiple values",))
                continue
            if name in kw and name not in [x.arg for x in a.posonlyargs]:
                vals[name] = kw.pop(name)
            elif i >= len(params) - nd:
                vals[name] = defaults[i - (len(params) - nd)]
            else:
                return self.raise_(st, ctx, "TypeError", ("missing argument",))
        if a.vararg:
            sq = Seq.of(rest)
            if star is not None:
                sq = seq_concat(sq, star)
            vals[a.vararg.arg] = tuple(sq.items) if sq.items is not None else sq
        elif rest or star is not None:
            if star is not None:
                raise Unsupported("symbolic *args to a function without *args")
            return self.raise_(st, ctx, "TypeError", ("too many arguments",))
        for x in a.kwonlyargs:
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                vals[x.arg] = kwdefaults[x.arg]
            else:
                return self.raise_(st, ctx, "TypeError", ("missing keyword",))
        if a.kwarg:
            if ca.kwstar is not None:
                if kw:
                    raise Unsupported("mixed ** arguments")
                vals[a.kwarg.arg] = ca.kwstar
            else:
                st, d = self.alloc(st, Ext("builtins.dict"), data=DictC(dict(kw)), kind="dict")
                vals[a.kwarg.arg] = d
        elif kw:
            return self.raise_(st, ctx, "TypeError", ("unexpected keyword",))
        elif ca.kwstar is not None:
            raise Unsupported("symbolic ** argument")
        st, fr = self.alloc(st, None, vals, kind="frame")
        fctx = Ctx(f.mod, ((fr.oid, names),) + tuple(f.frames), f, [], ctx.depth + 1)
        fctx.cls = f.owner
        # nested functions keep the class of the enclosing method for super()
        if f.owner is None and f.frames and ctx.fn is not None:
            fctx.cls = getattr(ctx, "cls", None)
            fctx.selfarg = ctx.selfarg
        if f.owner is not None and params:
            fctx.selfarg = params[0]
        return [(st, fctx)]

    # ------------------------------------------------------------------ statements
    def ex_block(self, body, st, ctx):
        outs = []
        cur = [st]
        for b in body:
            nxt = []
            for s in cur:
                for kind, s2, v in self.ex(b, s, ctx):
                    if kind == "n":
                        nxt.append(s2)
                    else:
                        outs.append((kind, s2, v))
            cur = nxt
            if not cur:
                break
        outs += [("n", s, None) for s in cur]
        return outs

    def ex(self, n, st, ctx):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__}")
        # exceptions raised while evaluating expressions of this statement become outcomes here
        c = ctx.child(sink=[])
        outs = m(n, st, c)
        outs = outs + [("raise", s, e) for s, e in c.sink]
        return outs

    def ex_Expr(self, n, st, ctx):
        if isinstance(n.value, ast.Constant):
            return [("n", st, None)]
        if isinstance(n.value, ast.Yield):
            out = []
            vs = self.ev(n.value.value, st, ctx) if n.value.value is not None else [(st, None)]
            for s, v in vs:
                if ctx.yield_k is not None:
                    out += ctx.yield_k(s, v)
                elif ctx.gen is not None:
                    if self.on_yield is not None:
                        s = self.on_yield(self, s, v, ctx)
                    out.append(("n", s.setd(ctx.gen, seq_append(s.d(ctx.gen), v)), None))
                else:
                    raise Unsupported("yield")
            return out
        if isinstance(n.value, ast.YieldFrom):
            out = []
            for s, v in self.ev(n.value.value, st, ctx):
                for s2, sq in lib.iterate(self, s, v, ctx):
                    out.append(("n", s2.setd(ctx.gen, seq_concat(s2.d(ctx.gen), sq)), None))
            return out
        return [("n", s, None) for s, _ in self.ev(n.value, st, ctx)]

    def ex_Pass(self, n, st, ctx):
        return [("n", st, None)]

    def ex_Break(self, n, st, ctx):
        return [("brk", st, None)]

    def ex_Continue(self, n, st, ctx):
        return [("cont", st, None)]

    def ex_Return(self, n, st, ctx):
        if n.value is None:
            return [("ret", st, None)]
        return [("ret", s, v) for s, v in self.ev(n.value, st, ctx)]

    def ex_Global(self, n, st, ctx):
        return [("n", st, None)]

    ex_Nonlocal = ex_Global

    def ex_Assert(self, n, st, ctx):
        out = []
        for s, b in self.ev_cond(n.test, st, ctx):
            if b:
                out.append(("n", s, None))
            else:
                self.raise_(s, ctx, "AssertionError")
        return out

    def ex_FunctionDef(self, n, st, ctx):
        out = []
        for s, f in self._mkfn(n, st, ctx, n.name):
            out.append(("n", self.bind_name(s, ctx, n.name, f), None))
        return out

    def ex_Import(self, n, st, ctx):
        for al in n.names:
            m = self.loader.module(al.name)
            nm = al.asname or al.name.split(".")[0]
            st = self.bind_name(st, ctx, nm, Mod(m) if m else Ext(al.name if al.asname else al.name.split(".")[0]))
        return [("n", st, None)]

    def ex_ImportFrom(self, n, st, ctx):
        mod = ctx.mod._absmod(n.module, n.level)
        for al in n.names:
            m = self.loader.module(mod)
            if m is not None and al.name in m.names:
                st, v = self.global_value(st, m, al.name)
            else:
                v = Ext(f"{mod}.{al.name}")
            st = self.bind_name(st, ctx, al.asname or al.name, v)
        return [("n", st, None)]

    def ex_Assign(self, n, st, ctx):
        out = []
        for s, v in self.ev(n.value, st, ctx):
            cur = [s]
            for t in n.targets:
                nxt = []
                for s1 in cur:
                    nxt += self.assign(t, s1, v, ctx)
                cur = nxt
            out += [("n", s1, None) for s1 in cur]
        return out

    def ex_AnnAssign(self, n, st, ctx):
        if n.value is None:
            return [("n", st, None)]
        out = []
        for s, v in self.ev(n.value, st, ctx):
            out += [("n", s1, None) for s1 in self.assign(n.target, s, v, ctx)]
        return out

    def assign(self, t, st, v, ctx):
        """-> [st]"""
        if isinstance(t, ast.Name):
            return [self.bind_name(st, ctx, t.id, v)]
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, ctx):
                out += self.setattr(s, o, t.attr, v, ctx)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, o in self.ev(t.value, st, ctx):
                for s2, k in self.ev(t.slice, s, ctx):
                    out += self.setitem(s2, o, k, v, ctx)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred target")
            out = []
            for s, sq in lib.iterate(self, st, v, ctx):
                k = len(t.elts)
                for s2, b in self.split(s, sq.zn() == k):
                    if not b:
                        self.raise_(s2, ctx, "ValueError", ("unpack",))
                        continue
                    cur = [s2]
                    for j, e in enumerate(t.elts):
                        nxt = []
                        for s3 in cur:
                            nxt += self.assign(e, s3, sq.at(j), ctx)
                        cur = nxt
                    out += cur
            return out
        raise Unsupported("assignment target")

    def ex_AugAssign(self, n, st, ctx):
        out = []
        t = n.target
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            for s, cur in self.lookup(t.id, st, ctx):
                for s2, v in self.ev(n.value, s, ctx):
                    for s3, r in lib.inplace(self, s2, op, cur, v, ctx):
                        out.append(("n", self.bind_name(s3, ctx, t.id, r), None))
            return out
        if isinstance(t, ast.Attribute):
            for s, o in self.ev(t.value, st, ctx):
                for s1, cur in self.getattr(s, o, t.attr, ctx):
                    for s2, v in self.ev(n.value, s1, ctx):
                        for s3, r in lib.inplace(self, s2, op, cur, v, ctx):
                            out += [("n", x, None) for x in self.setattr(s3, o, t.attr, r, ctx)]
            return out
        if isinstance(t, ast.Subscript):
            for s, (o, k) in self.evs([t.value, t.slice], st, ctx):
                for s1, cur in self.getitem(s, o, k, ctx):
                    for s2, v in self.ev(n.value, s1, ctx):
                        for s3, r in lib.inplace(self, s2, op, cur, v, ctx):
                            out += [("n", x, None) for x in self.setitem(s3, o, k, r, ctx)]
            return out
        raise Unsupported("augmented target")

    def ex_Delete(self, n, st, ctx):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    nxt.append(self.bind_name(s, ctx, t.id, UNBOUND))
                elif isinstance(t, ast.Subscript):
                    for s2, (o, k) in self.evs([t.value, t.slice], s, ctx):
                        nxt += self.delitem(s2, o, k, ctx)
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s, ctx):
                        nxt += lib.delattr_(self, s2, o, t.attr, ctx)
                else:
                    raise Unsupported("del target")
            cur = nxt
        return [("n", s, None) for s in cur]

    def ex_If(self, n, st, ctx):
        out = []
        for s, b in self.ev_cond(n.test, st, ctx):
            out += self.ex_block(n.body if b else n.orelse, s, ctx)
        return out

    def ex_Raise(self, n, st, ctx):
        if n.exc is None:
            if not ctx.handling:
                raise Unsupported("bare raise outside handler")
            return [("raise", st, ctx.handling[-1])]
        out = []
        for s, e in self.ev(n.exc, st, ctx):
            for s2, c in (self.ev(n.cause, s, ctx) if n.cause is not None else [(s, UNBOUND)]):
                if isinstance(e, (Ext, ClassInfo)):
                    r = self.call(s2, e, CallArgs([]), ctx)
                else:
                    r = [(s2, e)]
                for s3, ev in r:
                    if isinstance(ev, Ref) and not isinstance(c, Unbound):
                        s3 = s3.setf(ev, "__cause__", c)
                    out.append(("raise", s3, ev))
        return out

    def exc_isa(self, st, e, cls):
        if isinstance(cls, tuple):
            return any(self.exc_isa(st, e, c) for c in cls)
        o = st.obj(e)
        return lib.cls_isa(o.cls, cls)

    def ex_Try(self, n, st, ctx):
        outs = []
        body = self.ex_block(n.body, st, ctx)
        after = []
        for kind, s, v in body:
            if kind == "n" and n.orelse:
                after += self.ex_block(n.orelse, s, ctx)
            elif kind == "raise":
                after += self._handle(n.handlers, s, v, ctx)
            else:
                after.append((kind, s, v))
        if not n.finalbody:
            return after
        for kind, s, v in after:
            for k2, s2, v2 in self.ex_block(n.finalbody, s, ctx):
                if k2 == "n":
                    outs.append((kind, s2, v))
                else:
                    outs.append((k2, s2, v2))
        return outs

    def _handle(self, handlers, st, e, ctx):
        for h in handlers:
            if h.type is None:
                match = True
            else:
                c2 = ctx.child(sink=[])
                r = self.ev(h.type, st, c2)
                if len(r) != 1 or c2.sink:
                    raise Unsupported("exception type expression")
                match = self.exc_isa(st, e, r[0][1])
            if match:
                s = st
                if h.name:
                    s = self.bind_name(s, ctx, h.name, e)
                return self.ex_block(h.body, s, ctx.child(handling=ctx.handling + (e,)))
        return [("raise", st, e)]

    def ex_With(self, n, st, ctx):
        def run(i, s):
            if i == len(n.items):
                return self.ex_block(n.body, s, ctx)
            it = n.items[i]
            out = []
            for s1, cm in self.ev(it.context_expr, s, ctx):
                def body(s2, v):
                    if it.optional_vars is not None:
                        r = []
                        for s3 in self.assign(it.optional_vars, s2, v, ctx):
                            r += run(i + 1, s3)
                        return r
                    return run(i + 1, s2)
                out += self.with_(s1, cm, body, ctx)
            return out
        return run(0, st)

    def with_(self, st, cm, body, ctx):
        if isinstance(cm, Ref) and st.obj(cm).kind == "gencm":
            o = st.obj(cm)
            f, ca = o.fields["fn"], o.fields["ca"]
            self.inlined.add(f.qual)
            out = []
            pend_key = f"_pending{next(self.oids)}"

            def k(s, v):
                res = []
                for kind, s2, v2 in body(s, v):
                    if kind in ("n", "raise"):
                        res.append((kind, s2, v2))
                    else:
                        res.append(("n", s2.g(**{pend_key: (kind, v2)}), None))
                return res
            for s, fctx in self.bind_args(st, f, ca, ctx):
                fctx.yield_k = k
                for kind, s2, v in self.ex_block(f.node.body, s, fctx):
                    if kind in ("n", "ret"):
                        p = s2.ghost.get(pend_key)
                        if p is not None:
                            out.append((p[0], s2.g(**{pend_key: None}), p[1]))
                        else:
                            out.append(("n", s2, None))
                    else:
                        out.append((kind, s2, v))
                out += [("raise", s2, e) for s2, e in fctx.sink]
            return out
        h = lib.with_builtin(self, st, cm, body, ctx)
        if h is not None:
            return h
        ent = self.class_attr_fn(st, cm, "__enter__")
        ext = self.class_attr_fn(st, cm, "__exit__")
        if ent is None or ext is None:
            raise Unsupported(f"with {cm!r}")
        out = []
        for s, v in self.call(st, BM(ent, cm), CallArgs([]), ctx):
            for kind, s2, v2 in body(s, v):
                a = [None, None, None]
                if kind == "raise":
                    a = [s2.obj(v2).cls, v2, None]
                c2 = ctx.child(sink=[])
                for s3, r in self.call(s2, BM(ext, cm), CallArgs(a), c2):
                    if kind == "raise":
                        for s4, t in self.truth(s3, r, ctx):
                            for s5, b in self.split(s4, t):
                                out.append(("n", s5, None) if b else (kind, s5, v2))
                    else:
                        out.append((kind, s3, v2))
                out += [("raise", s3, e) for s3, e in c2.sink]
        return out

    # ------------------------------------------------------------------ loops
    def ex_For(self, n, st, ctx):
        out = []
        for s, itv in self.ev(n.iter, st, ctx):
            live = None
            views = ()
            if isinstance(itv, Ref) and s.obj(itv).kind in ("list", "deque"):
                live = itv
            elif isinstance(itv, Ref) and s.obj(itv).kind in ("dict", "set"):
                views = (itv,)
            elif isinstance(itv, Seq) and itv.kind:
                views = itv.kind
            for s1, seq in lib.iterate(self, s, itv, ctx):
                def body(s2, elem, _k):
                    r = []
                    for s3 in self.assign(n.target, s2, elem, ctx):
                        r += self.ex_block(n.body, s3, ctx)
                    return r
                if views:
                    # iteration over a view of a mutable container: the container must not change
                    body = _unchanged(s1, views, body)
                out += self.for_loop(s1, seq, body, ctx, live=live,
                                     orelse=(lambda s2: self.ex_block(n.orelse, s2, ctx)) if n.orelse else None,
                                     loop_id=(ctx.fn.qual if ctx.fn else "", n))
        return out

    def ex_While(self, n, st, ctx):
        from . import loops
        return loops.while_loop(self, n, st, ctx)

    def for_loop(self, st, seq, body, ctx, live=None, orelse=None, loop_id=None):
        """outcomes: 'n' for normal completion (incl. break), others propagated."""
        from . import loops
        return loops.for_loop(self, st, seq, body, ctx, live, orelse, loop_id)
