"""C04: which callbacks and which arguments are accepted.

A parameter list is an arbitrary sequence of inspect.Parameter objects (any kinds, defaults,
annotations).  Ghost functions, defined by recursion over the position:
REQ(k) = positional parameters without default among the first k, OPT(k) = those with one,
STAR(k) = there is a *args among them."""
from .common import *

PAR = "inspect.Parameter"
KINDS = ["POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD"]
PK = lib.attr_fun("kind")
PD = lib.attr_fun("default")
PA = lib.attr_fun("annotation")
EMPTY = Ext(f"{PAR}.empty")


def kterm(k):
    return to_term(Ext(f"{PAR}.{k}"))


def params_of(E, sigv):
    """the parameter sequence of a signature value, as a family indexed by position"""
    nf = z3.Function("nparams", V, z3.IntSort())
    pf = z3.Function("param", V, z3.IntSort(), V)
    return Seq(nf(sigv.t), lambda k: SV(pf(sigv.t, zlen(k)), "Parameter"))


def is_pos(p):
    return z3.Or(PK(p) == kterm("POSITIONAL_ONLY"), PK(p) == kterm("POSITIONAL_OR_KEYWORD"))


def param_schema(E):
    base_schema(E)

    def kind_of(E, st, v, ctx):
        out = []
        for k in KINDS:
            s = st.assume(PK(v.t) == kterm(k))
            if E.feasible(s):
                out.append((s, Ext(f"{PAR}.{k}")))
        return out
    E.schema.update({
        ("Signature", "isinstance"): lambda E, st, v, c: False if c.endswith("str") else None,
        ("Signature", "parameters"): lambda E, st, v, ctx: [(st, SV(lib.attr_fun("parameters")(v.t), "params"))],
        ("Signature", "empty"): lambda E, st, v, ctx: [(st, EMPTY)],
        ("params", "values"): "values",
        ("values", "()"): lambda E, st, f, ca, ctx: [(st, params_of(E, SV(SIGOF(f.t))))],
        ("Parameter", "kind"): kind_of,
        ("Parameter", "default"): "any",
        ("Parameter", "annotation"): "any",
        ("Parameter", "name"): "str",
    })


SIGOF = z3.Function("signature_of_values_method", V, V)


def sig_value(st, name="sig"):
    s = SV(fresh_v(name), "Signature")
    v = lib.attr_fun("values")(lib.attr_fun("parameters")(s.t))
    st = st.assume(SIGOF(v) == s.t)
    return st, s


class Counts:
    """REQ, OPT, STAR for one parameter list"""

    def __init__(self, ps):
        self.ps = ps
        self.req, self.opt = fresh_fun("REQ", z3.IntSort(), z3.IntSort()), fresh_fun("OPT", z3.IntSort(), z3.IntSort())
        self.star = fresh_fun("STAR", z3.IntSort(), z3.BoolSort())

    def init(self):
        return [self.req(0) == 0, self.opt(0) == 0, z3.Not(self.star(0))]

    def step(self, m):
        m = zlen(m)
        p = to_term(self.ps.at(m))
        e = to_term(EMPTY)
        i = z3.IntVal
        return [self.req(m + 1) == self.req(m) + z3.If(z3.And(is_pos(p), PD(p) == e), i(1), i(0)),
                self.opt(m + 1) == self.opt(m) + z3.If(z3.And(is_pos(p), PD(p) != e), i(1), i(0)),
                self.star(m + 1) == z3.Or(self.star(m), PK(p) == kterm("VAR_POSITIONAL"))]

    def cands(self):
        q = lambda f: (lambda m: SInt(f(zlen(m))))
        return [q(self.req), q(self.opt), lambda m: SBool(self.star(zlen(m))), lambda m: SBool(z3.Not(self.star(zlen(m)))),
                lambda m: SInt(self.req(zlen(m)) + self.opt(zlen(m)))]


def forbidden(ps, k):
    p = to_term(ps.at(k))
    return z3.And(PK(p) == kterm("KEYWORD_ONLY"), PD(p) == to_term(EMPTY))


RANGE = f"{SIG}:_acceptable_posarg_range"


@unit(["C04"], "_acceptable_posarg_range counts required and optional positional parameters; refuses required keyword-only ones",
      ["_acceptable_posarg_range"])
def u_range(U):
    E = U.E
    param_schema(E)
    st, sg = sig_value(St())
    ps = params_of(E, sg)
    c = Counts(ps)
    n = ps.zn()
    st = st.assume(n >= 0, *c.init())
    E.loop_specs[RANGE] = lambda L: {"cands": c.cands(), "facts": c.step}
    U.must_fail("satisfiable", st, z3.BoolVal(False))
    j = z3.Int("j_f")
    bad = z3.Exists([j], z3.And(0 <= j, j < n, forbidden(ps, j)))
    for fk in ({}, {"forbid_required_kwarg": True}, {"forbid_required_kwarg": False}):
        forbid = fk.get("forbid_required_kwarg", True)
        for kind, s, v in U.run(st, RANGE, [sg], fk):
            U.frame("_acceptable_posarg_range", st, s, ())
            if kind == "raise":
                U.oblige("refuses only a required keyword-only parameter", s, z3.And(z3.BoolVal(forbid), U.exc_is(s, v, "ValueError"), bad))
                continue
            U.oblige("accepts only without required keyword-only parameters", s, z3.Or(z3.BoolVal(not forbid), z3.Not(bad)))
            lo, hi = (v if isinstance(v, tuple) else (v.at(0), v.at(1)))
            U.oblige("minimum: the positional parameters without default", s, lib.same(E, s, lo, SInt(c.req(n))))
            U.oblige("maximum: None with *args, else all positional parameters", s,
                     to_term(hi) == z3.If(c.star(n), V.none, V.vint(c.req(n) + c.opt(n))))


MSG = "building the message of a connection error is trusted not to raise"


@unit(["C04"], "_check_nargs refuses exactly callbacks needing more arguments than declared or a keyword, and reports what they accept",
      ["SignalInstance._check_nargs", "SignalInstance._raise_connection_error"])
def u_check_nargs(U):
    E = U.E
    param_schema(E)
    E.assumptions.add(MSG)
    for what in ("python", "qt", "partial"):
        E.pending and None
        st, sig = signal_instance(E, St(), IMM)
        st, spec = sig_value(st, "spec")
        st, fs = sig_value(st, "fsig")
        nspec = params_of(E, spec).zn()
        st = st.assume(nspec >= 0)
        E.schema[("params", "len")] = None
        E.stubs["builtins.str"] = lambda E, st, ca, ctx, f: [(st, SV(fresh_v("str"), "str"))]
        lo, hi, unl = fresh_int("lo"), fresh_int("hi"), fresh_bool("unlimited")
        hit = ite(unl, None, SInt(hi))
        slot_sig = SV(fresh_v("qtsig"), "str") if what == "qt" else fs
        nosig, badsig = fresh_bool("nosig"), fresh_bool("badsig")
        slot = SV(fresh_v("slot"), "callable")
        E.schema[("callable", "isinstance")] = lambda E, st, v, c: (what == "partial") if c.endswith("partial") else None
        E.schema[("callable", "__name__")] = "str"
        E.schema[("hasattr", "__name__")] = None

        def get_sig(E, st, ca, ctx, fn):
            E.obligation("the signature looked at is the slot's", st, lib.same(E, st, ca.pos[0], slot))
            s, e = E.new_exc(st.assume(nosig), exc_cls(E, "ValueError"), ())
            ctx.sink.append((s, e))
            return [(st.assume(z3.Not(nosig)), slot_sig)]

        def rng(E, st, ca, ctx, fn):
            E.obligation("the range accepted is the slot's, required keywords being refused", st,
                         z3.And(lib.same(E, st, ca.pos[0], slot_sig), lib.same(E, st, ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("forbid_required_kwarg", True), True)))
            s, e = E.new_exc(st.assume(badsig), exc_cls(E, "ValueError"), ())
            ctx.sink.append((s, e))
            return [(st.assume(z3.Not(badsig)), (SInt(lo), hit))]
        E.stubs[f"{SIG}:_get_signature_possibly_qt"] = get_sig
        E.stubs[f"{SIG}:signature"] = lambda E, st, ca, ctx, fn: [(st, fs)]
        E.stubs[RANGE] = rng
        E.stubs["builtins.len"] = lambda E, st, ca, ctx, f: [(st, SInt(nspec))] if isinstance(ca.pos[0], SV) and ca.pos[0].cls == "params" else lib.FUNCS["builtins.len"](E, st, ca, ctx)
        for kind, s, v in U.run(st, f"{SIG}:SignalInstance._check_nargs", [sig, slot, spec]):
            U.frame("_check_nargs", st, s, ())
            ok = z3.Or(nosig, z3.And(z3.Not(badsig), lo <= nspec))
            if kind == "raise":
                U.oblige(f"refused with ValueError exactly when the slot needs more than is declared or a keyword [{what}]", s,
                         z3.And(z3.Not(ok), U.exc_is(s, v, "ValueError")))
            else:
                U.oblige(f"accepted only when the slot can be called with the declared arguments [{what}]", s, ok)
                a, b, q = [(v if isinstance(v, tuple) else v.items)[i] for i in range(3)]
                U.oblige(f"reports the number of arguments the slot accepts [{what}]", s,
                         z3.If(nosig, z3.And(to_term(a) == V.none, to_term(b) == V.none, z3.Not(zb(q))),
                               z3.And(to_term(b) == to_term(hit), zb(q) == z3.BoolVal(what == "qt"),
                                      to_term(a) == (V.none if what == "qt" else fs.t))))


@unit(["C04"], "_parameter_types_match: True exactly when every annotated parameter accepts the declared type at its position",
      ["_parameter_types_match"])
def u_types(U):
    E = U.E
    param_schema(E)
    st, spec = sig_value(St(), "spec")
    st, fs = sig_value(st, "fsig")
    p, q = params_of(E, fs), params_of(E, spec)
    st = st.assume(p.zn() >= 0, q.zn() >= 0, fs.t != V.none)
    fn = SV(fresh_v("function"), "callable")
    hints = SV(fresh_v("hints"), "hints")
    HG = z3.Function("hint_of", V, V, V)
    SUB = z3.Function("sub_type", V, V, z3.BoolSort())
    ISSTR = z3.Function("is_str", V, z3.BoolSort())
    E.schema[("isinstance", "builtins.str")] = lambda E, st, v: ISSTR(to_term(v))
    E.schema[("hints", "get")] = "hget"
    E.schema[("hget", "()")] = lambda E, st, f, ca, ctx: [(st, SV(HG(hints.t, to_term(ca.pos[0]))))]
    st = st.assume(hints.t != V.none, z3.Not(ISSTR(to_term(EMPTY))))

    def get_hints(E, st, ca, ctx, f):
        E.obligation("string annotations are resolved from the function", st, lib.same(E, st, ca.pos[0], fn))
        s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
        ctx.sink.append((s.g(raised=e), e))
        return [(st, hints)]
    E.stubs["typing.get_type_hints"] = get_hints
    E.assumptions.add("typing.get_type_hints is deterministic (standard library)")

    def is_sub(E, st, ca, ctx, f):
        s, e = E.new_exc(st, exc_cls(E, "TypeError"), ())
        ctx.sink.append((s.g(raised=e), e))
        return [(st, SBool(SUB(to_term(ca.pos[0]), to_term(ca.pos[1]))))]
    E.stubs[f"{SIG}:_is_subclass"] = is_sub
    E.stubs[f"{SIG}:signature"] = lambda E, st, ca, ctx, f: [(st, fs)]
    QN = f"{SIG}:_parameter_types_match"

    def mk(v0):
        b = fresh_bool("resolved")
        return ite(b, hints, None), []
    E.loop_specs[QN] = lambda L: {"crels": [(lambda v0, samples: v0 is None, mk,
                                             lambda E, s, v0, v: z3.Or(to_term(v) == V.none, to_term(v) == hints.t))]}

    def good(k):
        a = PA(to_term(p.at(k)))
        r = z3.If(ISSTR(a), HG(hints.t, lib.attr_fun("name")(to_term(p.at(k)))), a)
        return z3.Or(a == to_term(EMPTY), SUB(r, PA(to_term(q.at(k)))))
    n = z3.If(p.zn() < q.zn(), p.zn(), q.zn())
    j = z3.Int("j_t")
    allgood = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), good(j)))
    U.must_fail("satisfiable", st, z3.BoolVal(False))
    for args in ([fn, spec, fs], [fn, spec]):
        for kind, s, v in U.run(st, QN, args):
            U.frame("_parameter_types_match", st, s, {("g", "raised")})
            if kind == "raise":
                U.oblige("raises only when a type cannot be compared or resolved", s, z3.BoolVal("raised" in s.ghost))
            else:
                U.oblige("True only when every annotated parameter matches", s, z3.Or(z3.Not(zb(v)), allgood))
                U.oblige("False only when some annotated parameter does not match", s, z3.Or(zb(v), z3.Not(allgood)))


@unit(["C04"], "_is_subclass: a union matches when a member does, anything else when it is a subclass", ["_is_subclass"])
def u_is_subclass(U):
    E = U.E
    base_schema(E)
    st = St()
    left, right = SV(fresh_v("left"), "type"), SV(fresh_v("right"), "type")
    isc, isu = fresh_bool("isclass"), fresh_bool("isunion")
    ISS = z3.Function("issubclass_", V, V, z3.BoolSort())
    members = arb_seq("type", "members")
    st = st.assume(members.zn() >= 0)
    E.stubs["inspect.isclass"] = lambda E, st, ca, ctx, f: [(st, SBool(isc))]
    E.stubs["typing.get_origin"] = lambda E, st, ca, ctx, f: [(st, ite(isu, Ext("typing.Union"), None))]
    E.stubs["typing.get_args"] = lambda E, st, ca, ctx, f: [(st, members)]

    def iss(E, st, ca, ctx, f):
        return [(st, SBool(ISS(to_term(ca.pos[0]), to_term(ca.pos[1]))))]
    E.stubs["builtins.issubclass"] = iss
    E.assumptions.add("inspect.isclass, typing.get_origin/get_args, issubclass (standard library) are deterministic")
    j = z3.Int("j_m")
    some = z3.Exists([j], z3.And(0 <= j, j < members.zn(), ISS(to_term(members.at(j)), right.t)))
    for kind, s, v in U.run(st, f"{SIG}:_is_subclass", [left, right]):
        U.oblige("_is_subclass does not raise for comparable types", s, kind == "ret")
        U.frame("_is_subclass", st, s, ())
        want = z3.If(z3.And(z3.Not(isc), isu), some, ISS(left.t, right.t))
        U.oblige("_is_subclass: value", s, z3.And(z3.Implies(zb(v), want), z3.Implies(z3.Not(zb(v)), z3.Not(want))))


@unit(["C04"], "the declared signature has one positional-only parameter per type, annotated with it, in order", ["_build_signature"])
def u_build(U):
    E = U.E
    param_schema(E)
    types = arb_seq("type", "types")
    st = St().assume(types.zn() >= 0)
    made = []

    def mkpar(E, st, ca, ctx, f):
        made.append(1)
        g = lambda i, nm: ca.pos[i] if len(ca.pos) > i else ca.kw.get(nm)
        st, r = st, SV(MK(to_term(g(0, "name")), to_term(g(1, "kind")), to_term(ca.kw.get("annotation")), to_term(ca.kw.get("default", EMPTY))), "Parameter")
        return [(st, r)]
    MK = z3.Function("Parameter_", V, V, V, V, V)
    E.stubs["inspect.Parameter"] = mkpar
    got = {}

    def mksig(E, st, ca, ctx, f):
        [(s, sq)] = lib.iterate(E, st, ca.pos[0], ctx)
        return [(s.g(params=sq), SV(fresh_v("sig"), "Signature"))]
    E.stubs["inspect.Signature"] = mksig
    for kind, s, v in U.run(st, f"{SIG}:_build_signature", [], star=types):
        U.oblige("_build_signature does not raise", s, kind == "ret")
        ps = s.ghost.get("params")
        U.oblige("one parameter per type", s, z3.BoolVal(ps is not None) if ps is None else ps.zn() == types.zn())
        if ps is None:
            continue
        k = fresh_int("k")
        nm = z3.Const("anyname", V)
        U.oblige("each parameter is positional-only, without default, annotated with its type", s,
                 z3.Implies(z3.And(0 <= k, k < types.zn()),
                            z3.Exists([nm], to_term(ps.at(k)) == MK(nm, kterm("POSITIONAL_ONLY"), to_term(types.at(k)), to_term(EMPTY)))))



@unit(["C04", "C02"], "the signature of a callable is the one Python gives; one that has none is a signal or print, which get theirs, or an error",
      ["signature", "_stub_sig"])
def u_signature(U):
    E = U.E
    param_schema(E)
    st = St()
    obj, fs = SV(fresh_v("obj"), "callable"), SV(fresh_v("fsig"), "Signature")
    nosig, notcallable, ismeth = fresh_bool("nosig"), fresh_bool("notcallable"), fresh_bool("ismethod")
    TY = z3.Function("type_of", V, V)
    E.stubs["builtins.type"] = lambda E, st, ca, ctx, f: [(st, SV(TY(to_term(ca.pos[0])), "type"))]
    SELF = fresh_v("self_of")
    hasself, hasname = fresh_bool("has__self__"), fresh_bool("has__name__")
    E.schema[("callable", "__self__")] = lambda E, st, v, ctx: [(st, SV(SELF, "any"))]
    nm = SV(fresh_v("name"), "str")
    st = st.assume(V.is_vstr(nm.t))
    E.schema[("callable", "__name__")] = lambda E, st, v, ctx: [(st, nm)]
    E.schema[("hasattr", "__self__")] = lambda E, st, v, ctx: [(st.assume(hasself), True), (st.assume(z3.Not(hasself)), False)]
    E.schema[("hasattr", "__name__")] = lambda E, st, v, ctx: [(st.assume(hasname), True), (st.assume(z3.Not(hasname)), False)]

    def isig(E, st, ca, ctx, f):
        E.obligation("the object looked at is the one given", st, lib.same(E, st, ca.pos[0], obj))
        s, e = E.new_exc(st.assume(nosig), exc_cls(E, "ValueError"), ())
        ctx.sink.append((s, e))
        s, e = E.new_exc(st.assume(z3.Not(nosig), notcallable), exc_cls(E, "TypeError"), ())
        ctx.sink.append((s, e))
        return [(st.assume(z3.Not(nosig), z3.Not(notcallable)), fs)]
    E.stubs["inspect.signature"] = isig
    E.stubs["inspect.ismethod"] = lambda E, st, ca, ctx, f: [(st, SBool(ismeth))]
    E.assumptions.add("inspect.signature, inspect.ismethod (standard library) are deterministic; functools.cache returns what the function cached returned")
    MK = z3.Function("Parameter_", V, V, V, V)

    def mkpar(E, st, ca, ctx, f):
        g = lambda i, n: ca.pos[i] if len(ca.pos) > i else ca.kw.get(n)
        return [(st, SV(MK(to_term(g(0, "name")), to_term(g(1, "kind")), to_term(ca.kw.get("default", EMPTY))), "Parameter"))]

    made = {}

    def mksig(E, st, ca, ctx, f):
        [(s, sq)] = lib.iterate(E, st, ca.pos[0], ctx)
        r = SV(fresh_v("madesig"), "Signature")
        made[str(r.t)] = sq
        return [(s, r)]
    E.stubs["inspect.Parameter"] = mkpar
    E.stubs["inspect.Signature"] = mksig
    any_sig = SV(fresh_v("anysig"), "Signature")
    E.schema[("glob", f"{SIG}._ANYSIG")] = lambda E, st: (st, any_sig)
    is_print = obj.t == to_term(Ext("builtins.print"))
    for kind, s, v in U.run(st, f"{SIG}:signature", [obj]):
        U.frame("signature", st, s, ())
        if kind == "raise":
            U.oblige("an error only when Python has no signature for it: the error Python gave", s,
                     z3.Or(z3.And(nosig, U.exc_is(s, v, "ValueError")), z3.And(z3.Not(nosig), notcallable, U.exc_is(s, v, "TypeError"))))
            U.oblige("print always has a signature", s, z3.Not(z3.And(nosig, z3.Not(ismeth), is_print)))
        else:
            U.oblige("the signature Python gives is taken as it is", s, z3.Implies(z3.Not(nosig), lib.same(E, s, v, fs)))
            key = str(v.t) if isinstance(v, SV) else None
            if key in made:
                sq = made[key]
                p0 = to_term(sq.at(0))
                nmv = z3.Const("anyname", V)
                U.oblige("print takes any number of positional arguments", s, z3.And(is_print, nosig, z3.Exists([nmv], p0 == MK(nmv, kterm("VAR_POSITIONAL"), to_term(EMPTY)))))


@unit(["C04"], "a callable that is no Qt signal is looked at, never called; a Qt signal is described by its own signature text",
      ["_get_signature_possibly_qt", "_guess_qtsignal_signature"])
def u_qtsig(U):
    E = U.E
    param_schema(E)
    fs = SV(fresh_v("fsig"), "Signature")
    slot = SV(fresh_v("slot"), "callable")
    nosig = fresh_bool("nosig")

    def sigof(E, st, ca, ctx, fn):
        E.obligation("the signature looked at is the slot's", st, lib.same(E, st, ca.pos[0], slot))
        s, e = E.new_exc(st.assume(nosig), exc_cls(E, "ValueError"), ())
        ctx.sink.append((s, e))
        return [(st.assume(z3.Not(nosig)), fs)]
    E.stubs[f"{SIG}:signature"] = sigof

    def called(E, st, ca, ctx, fn):
        return [(st.g(called=True), SV(fresh_v("r"), "any"))]
    E.schema[("callable", "()")] = lambda E, st, f, ca, ctx: called(E, st, ca, ctx, None)
    E.schema[("qtobj", "emit")] = "callable"
    strs = {n: SV(fresh_v(n), "str") for n in ("typename", "qualname", "module", "qtsignal")}
    st = St().assume(*[V.is_vstr(x.t) for x in strs.values()])
    E.stubs["builtins.type"] = lambda E, st, ca, ctx, f: [(st, SV(z3.Function("type_of", V, V)(to_term(ca.pos[0])), "type"))]
    E.schema[("type", "__name__")] = lambda E, st, v, ctx: [(st, strs["typename"])]
    E.schema[("type", "__module__")] = lambda E, st, v, ctx: [(st, strs["module"])]
    hasq = fresh_bool("has__qualname__")
    E.schema[("hasattr", "__qualname__")] = lambda E, st, v, ctx: [(st.assume(hasq), True), (st.assume(z3.Not(hasq)), False)]
    E.schema[("callable", "__qualname__")] = lambda E, st, v, ctx: [(st, strs["qualname"])]
    E.schema[("callable", "__self__")] = "qtobj"
    E.schema[("callable", "signal")] = lambda E, st, v, ctx: [(st, strs["qtsignal"])]
    E.schema[("qtobj", "signal")] = lambda E, st, v, ctx: [(st, strs["qtsignal"])]
    E.schema[("callable", "emit")] = "callable"
    CONT, START = z3.Function("str_contains", V, V, z3.BoolSort()), z3.Function("str_startswith", V, V, z3.BoolSort())
    lib._symstr[("startswith", 1)] = START
    E.schema[("str", "in")] = lambda E, st, o, x, ctx: [(st, CONT(to_term(o), to_term(x)))]
    has = lambda x, sub: CONT(strs[x].t, to_term(sub))
    eq = lambda x, c: strs[x].t == to_term(c)
    pyqt = z3.Or(has("typename", "pyqtBoundSignal"), z3.And(hasq, eq("qualname", "pyqtBoundSignal.emit")))
    pyside = z3.Or(z3.And(hasq, eq("qualname", "SignalInstance.emit"), START(strs["typename"].t, to_term("builtin"))),
                   z3.And(has("typename", "SignalInstance"), has("module", "QtCore")))
    U.must_fail("a plain callable", st, pyqt)
    for kind, s, v in U.run(st.assume(z3.Not(pyqt), z3.Not(pyside)), f"{SIG}:_get_signature_possibly_qt", [slot]):
        U.frame("_get_signature_possibly_qt", st, s, {("g", "called")})
        U.oblige("the callable is not called", s, z3.BoolVal("called" not in s.ghost))
        if kind == "raise":
            U.oblige("an error only when it has no signature", s, z3.And(nosig, U.exc_is(s, v, "ValueError")))
        else:
            U.oblige("its signature is returned", s, lib.same(E, s, v, fs))
    for kind, s, v in U.run(st.assume(pyqt), f"{SIG}:_get_signature_possibly_qt", [slot]):
        U.oblige("a PyQt signal is not called either", s, z3.BoolVal("called" not in s.ghost))
        U.oblige("a PyQt signal is described by its signature text", s, kind == "ret" and lib.same(E, s, v, strs["qtsignal"]))
