"""Loops: concrete unrolling, or the invariant rule with per-location closed forms (see DESIGN)."""
from __future__ import annotations

import z3

from . import lib
from .values import (DictC, DictS, Obj, Poison, Ref, SBool, Seq, SetC, SetS, SInt, SERIAL, SV,
                     UNBOUND, Unbound, direct_apps, Unsupported, V, fresh_bool, fresh_fun, fresh_int, fresh_seq,
                     fresh_v, is_lit, ite, mkbool, mkint, seq_append, serial_now, to_term, zb, zi,
                     zlen)

UNROLL_MAX = 12


class SMap:
    """Per-attribute map of a family of symbolic objects, remembering its last store."""
    __slots__ = ("fn", "base", "key", "val", "raw")

    def __init__(self, fn, base=None, key=None, val=None, raw=None):
        self.raw = raw
        self.fn, self.base, self.key, self.val = fn, base, key, val

    def __call__(self, t):
        return self.fn(t)


def for_loop(E, st, seq, body, ctx, live, orelse, loop_id):
    lit = is_lit(seq.zn())
    if lit is not None and lit <= (40 if seq.items is not None else UNROLL_MAX) or E.bounded is not None:
        return _unroll(E, st, seq, body, ctx, live, orelse)
    return _symbolic(E, st, ForHeader(seq, live), body, ctx, orelse, loop_id)


def _unroll(E, st, seq, body, ctx, live, orelse):
    outs = []
    cur = [st]
    i = 0
    while cur:
        nxt = []
        for s in cur:
            sq = s.d(live) if live is not None else seq
            if E.bounded is not None and is_lit(sq.zn()) is None and i >= E.bounded:
                # bounded mode: longer sequences are not explored
                s2 = s.assume(sq.zn() <= i)
                if E.feasible(s2):
                    outs += orelse(s2) if orelse else [("n", s2, None)]
                continue
            if i > 64:
                raise Unsupported("loop unrolling too long")
            for s2, more in E.split(s, zlen(i) < sq.zn()):
                if not more:
                    outs += orelse(s2) if orelse else [("n", s2, None)]
                    continue
                for kind, s3, v in body(s2, sq.at(i), i):
                    if kind in ("n", "cont"):
                        nxt.append(s3)
                    elif kind == "brk":
                        outs.append(("n", s3, None))
                    else:
                        outs.append((kind, s3, v))
        cur = nxt
        i += 1
    return outs


def while_loop(E, n, st, ctx):
    # concrete attempt: as long as the guard is decided
    def cond(s):
        return E.ev_cond(n.test, s, ctx)

    def body(s, _e, _k):
        return E.ex_block(n.body, s, ctx)
    orelse = (lambda s: E.ex_block(n.orelse, s, ctx)) if n.orelse else None
    outs = []
    cur = [st]
    i = 0
    import ast
    forever = isinstance(n.test, ast.Constant) and n.test.value
    if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or):
        # an alternative that the body cannot change and that holds: the guard never ends the loop
        stored = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for alt in n.test.values:
            nodes = list(ast.walk(alt))
            if any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript, ast.NamedExpr)) for x in nodes):
                continue
            if stored & {x.id for x in nodes if isinstance(x, ast.Name)}:
                continue
            mark = len(ctx.sink)
            r = E.ev_cond(alt, st, ctx)
            del ctx.sink[mark:]
            if len(r) == 1 and r[0][1]:
                forever = True
    while cur and not (forever and E.bounded is None) and i < (UNROLL_MAX if E.bounded is None else E.bounded + 1):
        # unroll while the guard is literally decided
        mark = len(ctx.sink)
        nxt = []
        undecided = False
        for s in cur:
            r = cond(s)
            if len(r) == 2 and E.bounded is None:
                undecided = True
                break
            for s2, b in r:
                if not b:
                    outs += orelse(s2) if orelse else [("n", s2, None)]
                    continue
                for kind, s3, v in body(s2, None, i):
                    if kind in ("n", "cont"):
                        nxt.append(s3)
                    elif kind == "brk":
                        outs.append(("n", s3, None))
                    else:
                        outs.append((kind, s3, v))
        if undecided:
            del ctx.sink[mark:]
            break
        cur = nxt
        i += 1
    if E.bounded is not None:
        return outs
    if cur and i == 0:
        return _symbolic(E, st, WhileHeader(cond), body, ctx, orelse, (ctx.fn.qual if ctx.fn else "", n))
    for s in cur:
        outs += _symbolic(E, s, WhileHeader(cond), body, ctx, orelse, (ctx.fn.qual if ctx.fn else "", n))
    return outs


class ForHeader:
    is_for = True

    def __init__(self, seq, live):
        self.seq, self.live = seq, live

    def enter(self, E, s, n):
        """[(st, elem)] entering iteration n"""
        sq = s.d(self.live) if self.live is not None else self.seq
        s = s.assume(zlen(n) < sq.zn())
        return [(s, sq.at(n))] if E.feasible(s) else []

    def exit(self, E, s, n):
        sq = s.d(self.live) if self.live is not None else self.seq
        if self.live is None or sq is self.seq:
            s = s.assume(zlen(n) == sq.zn())
        else:
            s = s.assume(zlen(n) >= sq.zn())
        return [s] if E.feasible(s) else []


class WhileHeader:
    is_for = False

    def __init__(self, cond):
        self.cond = cond
        self.seq = None

    def enter(self, E, s, n):
        return [(s2, None) for s2, b in self.cond(s) if b]

    def exit(self, E, s, n):
        return [s2 for s2, b in self.cond(s) if not b]


# ------------------------------------------------------------------ locations

def changed_locs(base, st):
    out = set()
    for oid, o in st.heap.items():
        b = base.heap.get(oid)
        if b is None or b is o:
            continue
        if o.data is not b.data:
            out.add(("d", oid))
        for k, v in o.fields.items():
            if k not in b.fields or not _ident(b.fields[k], v):
                out.add(("f", oid, k))
        for k in b.fields:
            if k not in o.fields:
                out.add(("f", oid, k))
    for k, v in st.ghost.items():
        if k not in base.ghost or not _ident(base.ghost[k], v):
            out.add(("g", k))
    for k, v in st.smap.items():
        if base.smap.get(k) is not v:
            out.add(("s", k))
    return out


def _ident(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, (int, str, bool, type(None))) and isinstance(b, (int, str, bool, type(None))):
        return type(a) is type(b) and a == b
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.t.eq(b.t)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return a.t.eq(b.t)
    if isinstance(a, SV) and isinstance(b, SV):
        return a.t.eq(b.t) and a.cls == b.cls
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    return False


def get_loc(st, loc):
    if loc[0] == "f":
        o = st.heap.get(loc[1])
        return o.fields.get(loc[2], UNBOUND) if o is not None else UNBOUND
    if loc[0] == "d":
        return st.heap[loc[1]].data
    if loc[0] == "g":
        return st.ghost.get(loc[1])
    return st.smap.get(loc[1])


def set_loc(st, loc, v):
    if loc[0] == "f":
        return st.put(loc[1], st.heap[loc[1]].with_field(loc[2], v))
    if loc[0] == "d":
        return st.put(loc[1], st.heap[loc[1]].with_data(v))
    if loc[0] == "g":
        return st.g(**{loc[1]: v})
    return st.sm(loc[1], v)


def havoc(v, samples=()):
    """(value, [facts]) fresh value of the same shape"""
    allv = [v] + list(samples)
    if all(z3.is_expr(x) for x in allv) and len({x.sort() for x in allv}) == 1:
        return z3.FreshConst(v.sort(), "h"), []
    ks = {_shape(x) for x in allv}
    ks.discard("unbound")
    if ks == {"int"}:
        return SInt(fresh_int("h")), []
    if ks == {"bool"}:
        return SBool(fresh_bool("h")), []
    if len(ks) == 1 and next(iter(ks)).startswith("sv:"):
        src = next(x for x in allv if isinstance(x, SV))
        return SV(fresh_v("h"), src.cls), []
    if ks <= {"int", "bool", "none", "str"} or all(k in ("none", "str", "int", "bool") or k.startswith("sv:") for k in ks):
        if ks == {"str"} and len({x for x in allv if isinstance(x, str)}) == 1:
            return allv[0], []
        return SV(fresh_v("h")), []
    if ks == {"seq"} and not all(isinstance(x, tuple) for x in allv if not isinstance(x, Unbound)):
        el = None
        for x in allv:
            if isinstance(x, Unbound):
                continue
            x = Seq.of(x) if isinstance(x, tuple) else x
            if x.items is None or x.items:
                el = x.at(fresh_int("hk"))
                break
        hint = None
        if isinstance(el, SInt) or (isinstance(el, int) and not isinstance(el, bool)):
            hint = "int"
        elif isinstance(el, (bool, SBool)):
            hint = "bool"
        elif isinstance(el, SV):
            hint = el.cls
        elif el is None:
            hint = None
        elif isinstance(el, str):
            hint = "str"
        elif isinstance(el, tuple) and el:
            fs = [fresh_fun("hseqt", z3.IntSort(), V) for _ in el]
            n = fresh_int("hseq_len")

            def comp(x, t):
                if isinstance(x, SInt) or (isinstance(x, int) and not isinstance(x, bool)):
                    return SInt(V.vi(t))
                if isinstance(x, (SBool, bool)):
                    return SBool(V.vb(t))
                return SV(t, x.cls if isinstance(x, SV) else None)
            return Seq(n, lambda k: tuple(comp(x, f(zlen(k))) for x, f in zip(el, fs))), [n >= 0]
        else:
            return Poison("list modified in a loop in a way the verifier cannot summarise"), []
        s = fresh_seq("hseq", hint=hint) if hint in ("int", "bool") else fresh_seq("hseq", cls=hint)
        return s, [s.zn() >= 0]
    if all(isinstance(x, (DictC, DictS)) for x in allv):
        has = fresh_fun("hhas", V, z3.BoolSort())
        val = fresh_fun("hval", V, V)
        n = fresh_int("hn")
        like = None
        for x in allv:
            if like is None and not (isinstance(x, DictC) and not x.d):
                try:
                    like = lib.dict_to_s(None, x).val(fresh_v("probe"))
                except Unsupported:
                    pass
        d = DictS(lambda t: has(t), lambda t: from_like(like, val(t)), n)
        if all(isinstance(x, DictS) and x.pos is not None for x in allv):
            K, P = fresh_fun("hkey", z3.IntSort(), V), fresh_fun("hpos", V, z3.IntSort())
            kl = allv[0].keys.at(fresh_int("hk"))
            d.keys, d.pos = Seq(n, lambda k: from_like(kl, K(zlen(k)))), lambda t: P(t)
        d.valcls = val
        return d, [n >= 0]
    if all(isinstance(x, (SetC, SetS)) for x in allv):
        has = fresh_fun("hhas", V, z3.BoolSort())
        n = fresh_int("hn")
        return SetS(lambda t: has(t), n), [n >= 0]
    if all(callable(x) for x in allv if x is not None) and any(isinstance(x, SMap) or callable(x) for x in allv):
        f = fresh_fun("hsm", V, V)
        like = next((x for x in allv if x is not None), None)
        like = like(fresh_v("probe"))
        return SMap(lambda t: from_like(like, f(t)), raw=f), []
    return Poison("value modified in a loop in a way the verifier cannot summarise"), []


def _shape(v):
    if isinstance(v, Unbound):
        return "unbound"
    if isinstance(v, SV):
        return f"sv:{v.cls}"
    if isinstance(v, (Seq, tuple)):
        return "seq"
    k = lib.kind(v)
    if k == "obj":
        return "obj"
    return k


# ------------------------------------------------------------------ symbols of values

def value_terms(v, out):
    """z3 terms a scalar/tuple value is made of; False when not expressible"""
    if isinstance(v, (SInt, SBool, SV)):
        out.append(v.t)
        return True
    if isinstance(v, (bool, int, str, float, bytes, type(None))):
        return True
    if isinstance(v, tuple):
        return all(value_terms(x, out) for x in v)
    if isinstance(v, Ref):
        return True
    if isinstance(v, (lib.Fn, lib.Ext, lib.ClassInfo)):
        return True
    return False


def subst_value(v, pairs):
    if isinstance(v, SInt):
        return mkint(z3.substitute(v.t, *pairs))
    if isinstance(v, SBool):
        return mkbool(z3.substitute(v.t, *pairs))
    if isinstance(v, SV):
        return SV(z3.substitute(v.t, *pairs), v.cls)
    if isinstance(v, tuple):
        return tuple(subst_value(x, pairs) for x in v)
    return v


def syms(t, out=None):
    out = set() if out is None else out
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    return out


def fresh_since(t, serial, allow=()):
    return any(SERIAL.get(s, 0) > serial and s not in allow for s in syms(t))


class L:
    """What a loop specification sees."""

    def __init__(self, E, st0, ctx, hdr, loop_id):
        self.E, self.st0, self.ctx, self.hdr, self.loop_id = E, st0, ctx, hdr, loop_id
        self.seq = hdr.seq

    def local(self, name):
        for oid, names in self.ctx.frames:
            if name in names:
                return ("f", oid, name)
        return None

    def val(self, name):
        l = self.local(name)
        return get_loc(self.st0, l) if l else UNBOUND


def _symbolic(E, st0, hdr, body, ctx, orelse, loop_id):
    serial0 = serial_now()
    spec = E.loop_specs.get(loop_id[0]) or E.loop_specs.get("*")
    base_oids = set(st0.heap)
    forms = {}        # loc -> fn(n) -> value   | None (havoc)
    tried = {}        # loc -> set of guess kinds already refuted
    samples = {}      # loc -> values seen
    sp = None
    if spec is not None:
        sp = spec(L(E, st0, ctx, hdr, loop_id)) or None
    for x in (sp or {}).get("base", lambda: ())():      # definitional facts about ghost functions at 0
        st0 = st0.assume(x)
    inv = (sp or {}).get("inv")
    sforms = (sp or {}).get("forms", {})
    cands = (sp or {}).get("cands", ())        # candidate closed forms fn(m) -> value, tried for any location
    gfacts = (sp or {}).get("facts")           # definitional facts about ghost functions at iteration m
    srel = (sp or {}).get("rel", {})       # loc -> (make(entry value) -> (value, facts), check(E, st, entry, value) -> goal)
    crels = (sp or {}).get("crels", ())        # candidate relations (applies(entry, samples), make, check) for any location
    srel = dict(srel) if crels else srel
    rel_on = {}
    cand_at = {}
    log = {"loop": f"{loop_id[0]}", "forms": {}}

    def formfacts(m):
        return [x for f in forms.values() if f is not None and hasattr(f, "facts") for x in f.facts(m)]

    def run(n, extra=(), hist=None, st_base=None, outs_only=False):
        """returns (st_n, outcomes) for one generic iteration"""
        s = (st_base or st0).assume(zlen(n) >= 0)
        havs = {}
        for loc, f in forms.items():
            if f is None:
                if rel_on.get(loc):
                    v, facts = srel[loc][0](get_loc(st0, loc))
                else:
                    v, facts = havoc(get_loc(st0, loc), samples.get(loc, ()))
                havs[loc] = v
                s = set_loc(s, loc, v).assume(*facts)
            else:
                s = set_loc(s, loc, f(n))
        if inv is not None:
            s = s.assume(*[f for _, f in inv(s, n)])
        if hist is not None:
            s = s.assume(*hist(n))
        if gfacts is not None:
            s = s.assume(*gfacts(n))
        s = s.assume(*formfacts(n))
        s = s.assume(*extra)
        res = []
        mark = len(ctx.sink)
        for s1, elem in hdr.enter(E, s, n):
            res += body(s1, elem, n)
        raised = ctx.sink[mark:]
        del ctx.sink[mark:]
        return s, havs, res, raised

    n = fresh_int("n")
    n_serial = serial_now()
    pending_final = set()
    loop_tainted = False
    tlocs = []
    for rnd in range(24):
        pmark = len(E.pending)
        st_n, havs, outs, raised = run(n)
        del E.pending[pmark:]
        conts = [s for k, s, _ in outs if k in ("n", "cont")]
        new = False
        for s in conts:
            for loc in changed_locs(st_n, s):
                if loc[0] in ("f", "d") and loc[1] not in base_oids:
                    continue
                if loc not in forms:
                    if loc in sforms:
                        forms[loc] = sforms[loc]
                        tried.setdefault(loc, set()).add("spec")
                    else:
                        forms[loc] = None
                        if loc in srel:
                            rel_on[loc] = True
                    new = True
                samples.setdefault(loc, [])
                if len(samples[loc]) < 3:
                    samples[loc].append(get_loc(s, loc))
                if forms.get(loc, 0) is None and loc not in srel:
                    for app, mk, ck in crels:
                        if app(get_loc(st0, loc), samples[loc]):
                            srel[loc] = (mk, ck)
                            rel_on[loc] = True
                            new = True
                            break
        if new:
            continue
        # verify the forms we have
        bad = False
        for loc, f in list(forms.items()):
            if f is None:
                if rel_on.get(loc) and not all(
                        E.entails(s, srel[loc][1](E, s, get_loc(st0, loc), get_loc(s, loc)), 3000) for s in conts):
                    rel_on[loc] = False
                    bad = True
                continue
            ok = _entry_ok(E, st0, loc, f) and all(_step_ok(E, s, loc, f, n) for s in conts)
            if not ok:
                forms[loc] = None
                bad = True
        if bad:
            continue
        # guess forms for havocked locations
        guessed = False
        hsyms = set()
        for v in havs.values():
            ts = []
            if isinstance(v, (SInt, SBool, SV)):
                hsyms |= syms(v.t)
            elif isinstance(v, Seq):
                hsyms |= syms(v.zn())
                e = v.at(z3.Int("probe"))
                if value_terms(e, ts):
                    for t in ts:
                        hsyms |= syms(t)
        hsyms = {x for x in hsyms if SERIAL.get(x, 0) > serial0}
        for loc, f in list(forms.items()):
            if f is not None or rel_on.get(loc):
                continue
            g = _guess(E, st0, st_n, loc, havs.get(loc), [get_loc(s, loc) for s in conts], n, serial0, n_serial,
                       tried.setdefault(loc, set()), hsyms, conts)
            if g is None:
                have = sum(1 for x in forms.values() if x is not None)
                for ci, cf in enumerate(cands):
                    # a candidate that failed is tried again once more of the other locations have a form
                    if cand_at.get((loc, ci), -1) < have and lib.kind(cf(n)) == lib.kind(get_loc(st0, loc)) and \
                            (not hasattr(cf, "fits") or cf.fits(loc, samples.get(loc, ()))):
                        cand_at[(loc, ci)] = have
                        g = cf
                        break
            if g is None:
                g = _guess_cond(E, st0, st_n, loc, havs.get(loc), conts, n, serial0, tried[loc], hsyms)
            if g is None:
                g = _guess_keyed(E, st0, st_n, loc, havs, conts, n, serial0, tried[loc], hsyms, hdr)
            if g is not None:
                forms[loc] = g
                guessed = True
        if guessed:
            continue
        break
    else:
        raise Unsupported(f"no stable loop summary for {loop_id[0]}")
    for loc, f in forms.items():
        v = get_loc(st0, loc)
        if rel_on.get(loc):
            log["forms"][str(loc)] = "relation"
            continue
        if f is None and not isinstance(havs.get(loc), Poison) and not isinstance(v, Unbound):
            loop_tainted = True
            tlocs.append(loc)
        log["forms"][str(loc)] = "closed form" if f is not None else "havoc"
    # invariants supplied by the contract: entry and step
    if inv is not None:
        s0 = st0
        for loc, f in forms.items():
            if f is not None:
                s0 = set_loc(s0, loc, f(z3.IntVal(0)))
        for nm, f in inv(s0, z3.IntVal(0)):
            E.obligation(f"{loop_id[0]}: loop invariant {nm} holds on entry", st0, f, kind="invariant")
        for s in conts:
            for nm, f in inv(s, n + 1):
                E.obligation(f"{loop_id[0]}: loop invariant {nm} is preserved", s, f, kind="invariant")
    E.loop_log.append(log)

    # history facts from the path conditions of continuing iterations
    st_n, havs, outs, raised = run(n)
    hsym = set()
    for v in havs.values():
        if isinstance(v, (SInt, SBool, SV)):
            hsym |= syms(v.t)
        elif isinstance(v, Seq):
            hsym |= syms(v.zn())
    conts = [s for k, s, _ in outs if k in ("n", "cont")]
    npc = len(st_n.pc)
    disj = []
    nname = n.decl().name()
    weak = False          # a quantified condition of the earlier iterations is forgotten
    for s in conts:
        weak = weak or any(_hasq(c) for c in s.pc[npc:])
        cs = [c for c in s.pc[npc:] if not fresh_since(c, serial0, allow=(nname,)) and not _hasq(c)]
        disj.append(z3.And(*cs) if cs else z3.BoolVal(True))
    D = z3.simplify(z3.Or(*disj)) if disj else z3.BoolVal(False)

    def hist(m):
        if z3.is_true(D):
            return []
        k = z3.Int("k_hist")
        return [z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zlen(m)), z3.substitute(D, (n, k))))]

    # outcomes leaving from a generic iteration
    result = []
    exits_outs = [o for o in outs if o[0] not in ("n", "cont")]
    def taint(s, names=None):
        names = tnames(havs) if names is None else names
        if weak and inv is None:
            names = names | {"*"}
        return s.g(_taint=s.ghost.get("_taint", frozenset()) | names) if names else s

    def tnames(hv):
        out = set()
        for loc in tlocs:
            v = hv.get(loc)
            if isinstance(v, (SInt, SBool, SV)):
                out |= syms(v.t)
            elif v is not None and not isinstance(v, Unbound):
                out.add("*" if not isinstance(v, Seq) else "")
                if isinstance(v, Seq):
                    out |= syms(v.zn())
                    e = v.at(z3.Int("probe"))
                    ts = []
                    if value_terms(e, ts):
                        for t in ts:
                            out |= syms(t)
        out.discard("")
        out.discard("probe")
        return frozenset(out)
    for k, s, v in exits_outs:
        s = taint(s.assume(*hist(n)))
        if k == "brk":
            result.append(("n", s, None))
        else:
            result.append((k, s, v))
    for s, e in raised:
        ctx.sink.append((taint(s.assume(*hist(n))), e))
    # normal exit
    N = fresh_int("N")
    s = st0.assume(N >= 0)
    xhavs = {}
    for loc, f in forms.items():
        if f is None:
            if rel_on.get(loc):
                v, facts = srel[loc][0](get_loc(st0, loc))
            else:
                v, facts = havoc(get_loc(st0, loc), samples.get(loc, ()))
            xhavs[loc] = v
            s = set_loc(s, loc, v).assume(*facts)
        else:
            s = set_loc(s, loc, f(N))
    s = s.assume(*formfacts(N))
    if inv is not None:
        s = s.assume(*[f for _, f in inv(s, N)])
    s = taint(s.assume(*hist(N)), tnames(xhavs))
    mark = len(ctx.sink)
    for s2 in hdr.exit(E, s, N):
        result += orelse(s2) if orelse else [("n", s2, None)]
    return result


def _hasq(t):
    from .engine import has_quant
    return has_quant(t)


def _entry_ok(E, st0, loc, f):
    a, b = get_loc(st0, loc), f(z3.IntVal(0))
    return _eq_ok(E, st0.assume(*f.facts(z3.IntVal(0))) if hasattr(f, "facts") else st0, a, b)


def _step_ok(E, s, loc, f, n):
    return _eq_ok(E, s, get_loc(s, loc), f(n + 1))


def _eq_ok(E, s, a, b):
    if isinstance(a, Unbound) or isinstance(b, Unbound):
        return isinstance(a, Unbound) and isinstance(b, Unbound)
    try:
        g = same_data(E, s, a, b)
    except Unsupported:
        return False
    return E.entails(s, g, timeout=3000)


def same_data(E, s, a, b):
    """goal: two values or payloads are the same"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, (Seq, tuple)) and isinstance(b, (Seq, tuple)):
        return lib.same_seq(E, s, a, b)
    if isinstance(a, (DictC, DictS)) and isinstance(b, (DictC, DictS)):
        if isinstance(a, DictC) and isinstance(b, DictC):
            if list(a.d) != list(b.d):
                return z3.BoolVal(False)
            return z3.And(*[lib.same(E, s, a.d[k], b.d[k]) for k in a.d]) if a.d else z3.BoolVal(True)
        x, y = lib.dict_to_s(E, a), lib.dict_to_s(E, b)
        t = fresh_v("t")
        g = [x.has(t) == y.has(t), z3.Implies(x.has(t), lib.same(E, s, x.val(t), y.val(t))), x.n == y.n]
        if x.pos is not None and y.pos is not None:
            g += [lib.same_seq(E, s, x.keys, y.keys), z3.Implies(x.has(t), x.pos(t) == y.pos(t))]
        return z3.And(*g)
    if isinstance(a, (SetC, SetS)) and isinstance(b, (SetC, SetS)):
        x, y = lib.set_to_s(a), lib.set_to_s(b)
        t = fresh_v("t")
        return z3.And(x.has(t) == y.has(t), x.n == y.n)
    if callable(a) and callable(b) and not isinstance(a, (lib.Fn,)):
        t = fresh_v("t")
        return lib.same(E, s, a(t), b(t))
    return lib.same(E, s, a, b)


def _guess(E, st0, st_n, loc, hv, newvals, n, serial0, n_serial, tried, hsyms, conts):
    v0 = get_loc(st0, loc)
    nname = n.decl().name()

    def closed(v):
        ts = []
        if not value_terms(v, ts):
            return False
        for t in ts:
            ss = syms(t)
            if ss & hsyms:
                return False
            if any(SERIAL.get(x, 0) > serial0 and x != nname for x in ss):
                return False
        return True

    if not newvals:
        return lambda m: v0
    # unchanged
    if "const" not in tried and all(_ident(x, hv) for x in newvals):
        tried.add("const")
        return lambda m: v0
    # affine integers
    if "affine" not in tried and isinstance(hv, SInt) and lib.is_intlike(v0) and all(lib.is_intlike(x) for x in newvals):
        ds = {is_lit(z3.simplify(zi(x) - hv.t)) for x in newvals}
        if len(ds) == 1 and None not in ds:
            d = ds.pop()
            tried.add("affine")
            z0 = zi(v0)
            return lambda m: mkint(z0 + d * zlen(m))
    # one element appended per iteration
    if "append" not in tried and isinstance(hv, Seq) and isinstance(v0, Seq) and \
            all(isinstance(x, Seq) and x.note and x.note[0] == "append" and x.note[1] is hv for x in newvals):
        es = [x.note[2] for x in newvals]
        e0 = es[0]
        if all(closed(e) for e in es) and all(_ident(e, e0) for e in es[1:]):
            tried.add("append")
            n0 = v0.zn()
            if is_lit(z3.simplify(n0)) == 0:
                return lambda m: Seq(z3.simplify(zlen(m)), lambda k: subst_value(e0, [(n, z3.simplify(zlen(k)))]))
            return lambda m: Seq(z3.simplify(n0 + zlen(m)),
                                 lambda k: ite(zlen(k) < n0, v0.at(k), subst_value(e0, [(n, z3.simplify(zlen(k) - n0))])))
    # one object of a family stored per iteration
    if "fam" not in tried and isinstance(hv, SMap) and all(isinstance(x, SMap) and x.base is hv for x in newvals):
        x0 = newvals[0]
        kt = z3.simplify(x0.key)
        if z3.is_app(kt) and kt.decl().name() == "fam" and z3.simplify(kt.arg(1)).eq(n) and \
                all(z3.simplify(x.key).eq(kt) and _ident(x.val, x0.val) for x in newvals) and closed(x0.val):
            tried.add("fam")
            fid = kt.arg(0)
            val = x0.val
            old = v0

            def form(m):
                def fn(t):
                    kk = V.fk(t)
                    return ite(z3.And(V.is_fam(t), V.ff(t) == fid, 0 <= kk, kk < zlen(m)),
                               subst_value(val, [(n, kk)]), old(t))
                return SMap(fn)
            return form
    # value depends on the last iteration only
    if "last" not in tried:
        e0 = newvals[0]
        if closed(e0) and all(_ident(e, e0) for e in newvals[1:]):
            tried.add("last")

            def form(m):
                lit = is_lit(zlen(m))
                if lit == 0:
                    return v0
                e = subst_value(e0, [(n, z3.simplify(zlen(m) - 1))])
                if isinstance(v0, Unbound):
                    return LastOrUnbound(e)
                try:
                    return ite(zlen(m) == 0, v0, e)
                except Unsupported:
                    return e
            if isinstance(v0, Unbound):
                def form2(m):
                    lit = is_lit(zlen(m))
                    if lit == 0:
                        return UNBOUND
                    return subst_value(e0, [(n, z3.simplify(zlen(m) - 1))])
                return form2
            return form
    return None


_counters: dict = {}


class Counter:
    """C(m) = number of k < m with P(k); idx(j) = the j-th such k (defined by recursion over the naturals)."""

    def __init__(self, P, n):
        self.P, self.n = P, n
        self.c = fresh_fun("cnt", z3.IntSort(), z3.IntSort())
        self.idx = fresh_fun("idx", z3.IntSort(), z3.IntSort())
        self.nw = fresh_fun("notp", z3.IntSort(), z3.IntSort())

    def p(self, k):
        return z3.substitute(self.P, (self.n, k))

    def facts(self, m):
        m = zlen(m)
        c, idx, p = self.c, self.idx, self.p
        j, k = z3.Int("j_cnt"), z3.Int("k_cnt")
        out = [c(0) == 0, 0 <= c(m), c(m) <= m, c(m + 1) == c(m) + z3.If(p(m), z3.IntVal(1), z3.IntVal(0)),
               z3.Implies(p(m), idx(c(m)) == m)]
        if is_lit(m) == 0:
            return out
        out.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c(m)),
                                             z3.And(0 <= idx(j), idx(j) < m, p(idx(j)), c(idx(j)) == j)), patterns=[idx(j)]))
        out.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m, p(k)), z3.And(0 <= c(k), c(k) < c(m), idx(c(k)) == k)),
                             patterns=[c(k)] + [x for x in direct_apps(p(k), k)]))
        out.append(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < c(m)), idx(j) < idx(k)),
                             patterns=[z3.MultiPattern(idx(j), idx(k))]))
        # C(m) = m iff all of them satisfy P; C(m) = 0 iff none does
        out.append(z3.Implies(c(m) < m, z3.And(0 <= self.nw(m), self.nw(m) < m, z3.Not(p(self.nw(m))))))
        out.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m, z3.Not(p(k))), c(m) < m)))
        out.append(z3.Implies(c(m) > 0, z3.And(0 <= idx(0), idx(0) < m, p(idx(0)))))
        out.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m, p(k)), c(m) > 0)))
        return out


class Form:
    def __init__(self, fn, counter):
        self.fn, self.counter = fn, counter

    def __call__(self, m):
        return self.fn(m)

    def facts(self, m):
        return self.counter.facts(m)


def counter_of(E, P, n):
    key = z3.substitute(P, (n, z3.Int("n_canon"))).sexpr()
    cs = E.__dict__.setdefault("counters", {})
    if key not in cs:
        cs[key] = Counter(z3.substitute(P, (n, z3.Int("n_canon"))), z3.Int("n_canon"))
    return cs[key]


def _guess_cond(E, st0, st_n, loc, hv, conts, n, serial0, tried, hsyms):
    """one element appended / a constant added in the iterations satisfying a condition on the element"""
    if "cond" in tried:
        return None
    v0 = get_loc(st0, loc)
    nname = n.decl().name()
    npc = len(st_n.pc)
    yes, el, deltas = [], [], set()
    for s in conts:
        v = get_loc(s, loc)
        if isinstance(hv, Seq) and isinstance(v0, Seq):
            if v is hv:
                continue
            if not (isinstance(v, Seq) and v.note and v.note[0] == "append" and v.note[1] is hv):
                return None
            el.append(v.note[2])
        elif isinstance(hv, SInt) and lib.is_intlike(v) and lib.is_intlike(v0):
            d = is_lit(z3.simplify(zi(v) - hv.t))
            if d is None:
                return None
            if d == 0:
                continue
            deltas.add(d)
        else:
            return None
        cs = [c for c in s.pc[npc:] if not fresh_since(c, serial0, allow=(nname,)) and not (syms(c) & hsyms) and not _hasq(c)]
        yes.append(z3.And(*cs) if cs else z3.BoolVal(True))
    if not yes:
        return None
    tried.add("cond")
    C = counter_of(E, z3.simplify(z3.Or(*yes)), n)
    if isinstance(hv, SInt):
        if len(deltas) != 1:
            return None
        d, z0 = deltas.pop(), zi(v0)
        return Form(lambda m: mkint(z0 + d * C.c(zlen(m))), C)
    e0 = el[0]
    ts = []
    if not value_terms(e0, ts) or not all(_ident(e, e0) for e in el[1:]):
        return None
    for t in ts:
        if syms(t) & hsyms or fresh_since(t, serial0, allow=(nname,)):
            return None
    n0 = v0.zn()
    return Form(lambda m: Seq(z3.simplify(n0 + C.c(zlen(m))),
                              lambda k: ite(zlen(k) < n0, v0.at(k), subst_value(e0, [(n, C.idx(z3.simplify(zlen(k) - n0)))]))), C)


def fam_keys(hdr, n):
    """family members fam(f, n) the current element of the loop consists of"""
    if not hdr.is_for or hdr.seq is None:
        return []
    ts, out = [], []
    if not value_terms(hdr.seq.at(n), ts):
        return []
    for t in ts:
        t = z3.simplify(t)
        if z3.is_app(t) and t.sort() == V and t.decl().name() == "fam" and z3.simplify(t.arg(1)).eq(n) \
                and not any(t.eq(o) for o in out):
            out.append(t)
    return out


class Keyed:
    """closed form of a map updated at the key of the current element in each iteration"""

    def __init__(self, fn, facts):
        self.fn, self.facts = fn, facts

    def __call__(self, m):
        return self.fn(m)


def _guess_keyed(E, st0, st_n, loc, havs, conts, n, serial0, tried, hsyms, hdr):
    """a map (attribute of a family of objects, or dict) updated only at the element's own key, by a
    value that depends on that key's old entry and the path taken"""
    v0, hv = get_loc(st0, loc), havs.get(loc)
    isd = isinstance(v0, (DictC, DictS)) and isinstance(hv, DictS)
    iss = not isd and (v0 is None or callable(v0)) and isinstance(hv, SMap)
    if not (isd or iss):
        return None
    keys = fam_keys(hdr, n)
    nname = n.decl().name()
    npc = len(st_n.pc)
    for key in keys:
        tag = ("keyed", str(key.arg(0)), len(havs))      # tried again when less is unknown
        if tag in tried:
            continue
        tried.add(tag)
        # values of the havocked maps at this key, in terms of the entry maps
        pairs = []
        ok = True
        for l2, h2 in havs.items():
            e2 = get_loc(st0, l2)
            for k2 in keys:
                if isinstance(h2, SMap) and e2 is not None:
                    pairs.append((h2.raw(k2) if h2.raw is not None else to_term(h2(k2)), to_term(e2(k2))))
                elif isinstance(h2, DictS):
                    d2 = lib.dict_to_s(E, e2)
                    try:
                        pairs.append((h2.has(k2), _zbool(d2.has(k2))))
                        v2 = d2.val(k2)
                        if v2 is not None:
                            pairs.append((h2.valcls(k2), to_term(v2)))
                    except Unsupported:
                        pass

        def sub(t):
            for _ in range(2):
                t = z3.substitute(t, *pairs)
            return z3.simplify(t)

        def closed(t):
            return not (syms(t) & hsyms) and not any(SERIAL.get(x, 0) > serial0 and x != nname for x in syms(t))
        cases = []
        for s in conts:
            cs = []
            for c in s.pc[npc:]:
                c2 = sub(c)
                if _hasq(c2) or not closed(c2):
                    continue
                cs.append(c2)
            if any(z3.is_false(c) for c in cs):
                continue
            x = get_loc(s, loc)
            if isd:
                x = lib.dict_to_s(E, x)
                try:
                    hk, vk = sub(_zbool(x.has(key))), x.val(key)
                    vt = sub(to_term(vk)) if vk is not None else V.none
                except Unsupported:
                    ok = False
                    break
                if is_lit(hk) is False:
                    vt, vk = V.none, None
                if not closed(hk) or not closed(vt):
                    ok = False
                    break
                cases.append((z3.And(*cs) if cs else z3.BoolVal(True), hk, vt, getattr(vk, "cls", None) if isinstance(vk, SV) else vk))
            else:
                try:
                    xv = x(key)
                    vt = sub(to_term(xv))
                except Unsupported:
                    ok = False
                    break
                if not closed(vt):
                    ok = False
                    break
                cases.append((z3.And(*cs) if cs else z3.BoolVal(True), None, vt, xv))
        if not ok or not cases:
            continue
        fid = key.arg(0)

        def inrange(t, m):
            kk = V.fk(t)
            return z3.And(V.is_fam(t), V.ff(t) == fid, 0 <= kk, kk < zlen(m))

        def pick(i, t, dflt):
            r = dflt
            for c in reversed(cases):
                r = z3.If(z3.substitute(c[0], (n, V.fk(t))), z3.substitute(c[i], (n, V.fk(t))), r)
            return z3.simplify(r)
        if iss:
            old = v0

            def form(m, old=old, pick=pick, inrange=inrange):
                def fn(t):
                    o = old(t)
                    new = pick(2, t, to_term(o))
                    return from_like(o, z3.If(inrange(t, m), new, to_term(o)))
                return SMap(fn)
            if old is None:
                continue
            return form
        d0 = lib.dict_to_s(E, v0)
        cnt = fresh_fun("dictn", z3.IntSort(), z3.IntSort())
        n0 = zlen(d0.n)
        sample = next((c[3] for c in cases if c[3] is not None), None)

        def form(m, d0=d0, pick=pick, inrange=inrange):
            def has(t):
                return z3.If(inrange(t, m), pick(1, t, _zbool(d0.has(t))), _zbool(d0.has(t)))

            def val(t):
                o = d0.val(t)
                ot = to_term(o) if o is not None else V.none
                return from_like(o if o is not None else sample, z3.If(inrange(t, m), pick(2, t, ot), ot))
            return DictS(has, val, cnt(zlen(m)))

        def facts(m, d0=d0, pick=pick, key=key):
            m = zlen(m)
            k = z3.substitute(key, (n, m))
            h1, h0 = pick(1, k, _zbool(d0.has(k))), _zbool(d0.has(k))
            return [cnt(0) == n0, cnt(m) >= 0, cnt(m + 1) == cnt(m) + z3.If(z3.And(h1, z3.Not(h0)), 1, z3.If(z3.And(h0, z3.Not(h1)), -1, 0))]
        return Keyed(form, facts)
    return None


def _zbool(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def from_like(sample, t):
    """value with the representation of `sample` for the term t"""
    if isinstance(sample, (bool, SBool)):
        return mkbool(V.vb(t))
    if lib.is_intlike(sample):
        return mkint(V.vi(t))
    if isinstance(sample, SV):
        return SV(t, sample.cls)
    return SV(t)


def LastOrUnbound(e):
    return e
