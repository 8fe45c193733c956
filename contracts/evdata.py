"""C18: evented dataclasses (_group_descriptor.py, _evented_decorator.py)."""
from .common import *
from .evmodel import fa
import itertools
from pyvc import loops

GD = "psygnal._group_descriptor"
I = z3.IntSort()
PATCHED = "_patched_by_psygnal_"
B = z3.BoolSort()



def group_obj(E, st, names=None):
    """a SignalGroup with arbitrary signals: (st, group, dict of its signals, dict of its aliases)"""
    si = E.loader.cls(SIG, "SignalInstance")
    st, d = lib.fresh_dict(st, "members", si, "str")
    st, dr = E.alloc(st, Ext("builtins.dict"), data=d, kind="dict")
    st, al = lib.fresh_dict(st, "aliases", None, "str")
    st, ar = E.alloc(st, Ext("builtins.dict"), data=al, kind="dict")
    st, g = E.alloc(st, E.loader.cls(GRP, "SignalGroup"), {"_psygnal_instances": dr, "_psygnal_aliases": ar})
    return st, g, d, al


def field_schema(U, obj, name):
    """the attribute `name` of obj: present or not (ghost has), with value (ghost val); nothing else is known of obj"""
    E = U.E

    def get(E, st, o, nm, default, ctx):
        if not is_lit(z3.simplify(z3.And(to_term(o) == obj.t, to_term(nm) == name.t))) is True and not E.entails(st, z3.And(to_term(o) == obj.t, to_term(nm) == name.t)):
            return [(st, SV(fresh_v("other_attr")))]
        out = []
        for s, b in E.split(st, st.ghost["has"]):
            if b:
                out.append((s, SV(s.ghost["val"])))
            elif default is not UNBOUND:
                out.append((s, default))
            else:
                s2, e = E.new_exc(s, exc_cls(E, "builtins.AttributeError"), ())
                ctx.sink.append((s2, e))
        return out
    E.schema[("getattr", "dynamic")] = get
    E.assumptions.add("reading the field of an evented object fails only with AttributeError and changes nothing")


@unit("C18", "assignment: the class's own __setattr__ runs once; the field's signal is emitted once, with new and old value, exactly when the field changed",
      ["evented_setattr", "evented_setattr._inner", "_setattr_and_emit_", "_changes_emitted.__init__", "_changes_emitted.__enter__", "_changes_emitted.__exit__", "get_signal_from_field"], timeout=120)
def u_setattr(U):
    E = U.E
    si = E.loader.cls(SIG, "SignalInstance")
    for aliases, nested in ((True, False), (False, False), (True, True)):
        st = St()
        st, g, members, al = group_obj(E, st)
        obj, name, value = SV(fresh_v("obj"), "evobj"), SV(fresh_v("name"), "str"), SV(fresh_v("value"))
        NSLOTS = fresh_fun("n_slots", V, I)
        x = z3.Const("x_sl", V)
        NUL = to_term(E.module_value(st, GD, "_NULL"))
        st = st.assume(z3.ForAll([x], NSLOTS(x) >= 0, patterns=[NSLOTS(x)]), value.t != NUL, name.t != V.none,
                       z3.ForAll([x], members.val(x).t != V.none, patterns=[members.val(x).t]),
                       z3.ForAll([x], z3.Implies(members.has(x), x != V.none), patterns=[members.has(x)]))
        E.schema[("evobj", "events")] = lambda E, st, v, ctx: [(st, g)]
        field_schema(U, obj, name)
        val0, has0 = fresh_v("before"), fresh_bool("had")
        st = st.assume(val0 != NUL)
        st = st.g(val=val0, has=has0, set=(), emitted=(), eq=())
        E.schema[("setter", PATCHED)] = lambda E, st, v, ctx: [(st, ("ev", "more"))]
        E.stubs[f"{SIG}:SignalInstance.__len__"] = lambda E, st, ca, ctx, fn: [(st, SInt(NSLOTS(ca.pos[0].t)))]

        def setter(E, st, f, ca, ctx):
            v2, h2 = fresh_v("after"), fresh_bool("has_after")
            st = st.assume(v2 != NUL)
            st = st.g(val=v2, has=h2, set=st.ghost["set"] + (ca,))
            for nm in ("user.Exception", "user.BaseException"):
                s, e = E.new_exc(st, exc_cls(E, nm), ())
                ctx.sink.append((s.g(seterr=e), e))
            return [(st, SV(fresh_v("setattr_result")))]
        E.schema[("setter", "()")] = setter
        sup = SV(fresh_v("super_setattr"), "setter")
        st = st.assume(lib.truthy(sup.t), sup.t != V.none, z3.Not(V.is_vbool(sup.t)), z3.Not(V.is_vint(sup.t)))
        differs = fresh_bool("equal")

        def equality(E, st, ca, ctx, fn):
            fr = dict(zip(("cls", "name", "before", "after", "_fail"), ca.pos), **ca.kw)
            E.obligation("the values compared are those of the field before and after, by the class's operator for it", st,
                         z3.And(lib.same(E, st, fr["cls"], E_type(E, st, obj)), lib.same(E, st, fr["name"], name),
                                to_term(fr["before"]) == z3.If(has0, val0, NUL), to_term(fr["after"]) == z3.If(st.ghost["has"], st.ghost["val"], NUL)))
            return [(st.g(eq=st.ghost["eq"] + (1,)), SBool(differs))]
        E.stubs[f"{GD}:_check_field_equality"] = equality

        def emit(E, st, ca, ctx, fn):
            E.obligation("the value is stored before the signal is emitted", st, z3.BoolVal(len(st.ghost["set"]) == 1))
            tb = fresh_v("tb")
            E.obligation("listeners that set the field again are heard: it is no longer being set when they run", st, st.d(busy).has(tb) == busy0.has(tb))
            st = st.g(emitted=st.ghost["emitted"] + ((ca.pos[0], tuple(ca.pos[1:])),))
            s, e = E.new_exc(st, exc_cls(E, ELE), ())
            ctx.sink.append((s.g(emiterr=e), e))
            return [(st, None)]
        E.stubs[f"{SIG}:SignalInstance.emit"] = emit
        E.stubs[f"{SIG}:SignalInstance.__call__"] = emit
        sig_name = z3.If(al.has(name.t), to_term(al.val(name.t)), name.t)
        sig = members.val(sig_name)
        # the fields being set right now (of this and other objects, by this and other threads): any, but not this one
        IDENT = SInt(fresh_int("thread"))
        E.stubs["threading.get_ident"] = lambda E, st, ca, ctx, fn: [(st, IDENT)]
        BUSY = fresh_fun("busy", V, z3.BoolSort())
        mine = []
        for o in (sig, obj, g):
            [(st, oid)] = lib.FUNCS["builtins.id"](E, st, CallArgs([o if not (isinstance(o, SV)) else SV(z3.If(True, o.t, o.t))]), None)
            mine += [to_term(tuple(p)) for p in itertools.permutations((IDENT, oid, name))]
        st = st.assume(*[z3.Not(BUSY(m)) for m in mine])
        nb = fresh_int("n_busy")
        st, busy = E.alloc(st.assume(nb >= 0), Ext("builtins.set"), data=SetS(lambda t: BUSY(t), nb), kind="set")
        busy0 = st.d(busy)
        E.schema[("glob", f"{GD}._SETTING")] = lambda E, st: (st, busy)
        reserved = name.t == to_term("events")
        evented = z3.And(z3.Not(reserved), sig_name != V.none, members.has(sig_name))
        heard = z3.And(evented, NSLOTS(sig.t) > 0)
        what = "assignment through a base class's patched __setattr__" if nested else "assignment" if aliases else "assignment (no aliases expected)"
        for k0, s0, f in U.run(st, f"{GD}:evented_setattr", ["events", sup], {"with_aliases": aliases}):
            U.oblige(f"{what}: patching returns a function", s0, z3.BoolVal(k0 == "ret" and isinstance(f, Fn)))
            if not isinstance(f, Fn):
                continue
            for s1, pv in E.getattr(s0, f, PATCHED, U.ctx(GD)):
                U.oblige(f"{what}: the function is marked as patched", s1, z3.BoolVal(pv in (True, ("ev", "more", "events"))))
            if nested:     # a subclass's own __setattr__ calls the patched one of its base, and is patched itself
                E.schema[("subsetter", PATCHED)] = lambda E, st, v, ctx: [(st, ())]
                E.schema[("subsetter", "()")] = lambda E, st, fn, ca, ctx, f=f: E.call(st, f, ca, ctx)
                sub = SV(fresh_v("sub_setattr"), "subsetter")
                s0 = s0.assume(lib.truthy(sub.t), sub.t != V.none, z3.Not(V.is_vbool(sub.t)), z3.Not(V.is_vint(sub.t)))
                [(k0, s0, f)] = U.run(s0, f"{GD}:evented_setattr", ["events", sub], {"with_aliases": aliases})
            for kind, s, v in U.run(s0, f, [obj, name, value]):
                sets, em = s.ghost["set"], s.ghost["emitted"]
                U.oblige(f"{what}: the undecorated assignment is made exactly once", s, z3.BoolVal(len(sets) == 1))
                for ca in sets:
                    U.oblige(f"{what}: with the attribute and value given", s, z3.And(z3.BoolVal(len(ca.pos) == 3 and not ca.kw), *[lib.same(E, s, a, b) for a, b in zip(ca.pos, (obj, name, value))]))
                before, after = z3.If(has0, val0, NUL), z3.If(s.ghost["has"], s.ghost["val"], NUL)
                failed = "seterr" in s.ghost
                asked = len(s.ghost["eq"]) > 0
                U.oblige(f"{what}: at most one emission", s, z3.BoolVal(len(em) <= 1))
                want = z3.And(heard, z3.Not(differs)) if not failed else z3.And(heard, after != before, z3.Not(differs))
                U.oblige(f"{what}: emits exactly when a listened-to field changed", s, z3.BoolVal(len(em) == 1) == want)
                for sg, args in em:
                    U.oblige(f"{what}: the field's own signal is emitted, under its alias if it has one", s, to_term(sg) == sig.t)
                    U.oblige(f"{what}: emitted with the new and the old value", s, z3.And(z3.BoolVal(len(args) == 2), *([to_term(args[0]) == after, to_term(args[1]) == before] if len(args) == 2 else [])))
                if kind == "raise":
                    U.oblige(f"{what}: only the error of the assignment or of a listener is raised", s, z3.BoolVal(v in (s.ghost.get("seterr"), s.ghost.get("emiterr"))))
                else:
                    U.oblige(f"{what}: an error is not swallowed", s, z3.BoolVal(not failed and "emiterr" not in s.ghost))
                tb = fresh_v("tb")
                U.oblige(f"{what}: it leaves no trace in the record of fields being set", s, s.d(busy).has(tb) == busy0.has(tb))
                U.frame(what, s0, s, {("d", busy.oid)} | {("g", k) for k in ("val", "has", "set", "emitted", "eq", "seterr", "emiterr")})
        U.must_fail("satisfiable", st.assume(heard), z3.BoolVal(False))
        E.schema[("setter", PATCHED)] = lambda E, st, v, ctx: [(st, ("ev", "events"))]
        for k0, s0, f in U.run(st, f"{GD}:evented_setattr", ["events", sup], {"with_aliases": aliases}):
            U.oblige("a __setattr__ that is patched already is left as it is", s0, z3.BoolVal(k0 == "ret") if k0 != "ret" else lib.same(E, s0, f, sup))


def E_type(E, st, v):
    [(s, t)] = lib.FUNCS["builtins.type"](E, st, CallArgs([v]), None)
    return t


@unit("C18", "values are compared by the field's operator (== by default); one that fails is replaced and never makes an assignment fail",
      ["_check_field_equality"])
def u_equality(U):
    E = U.E
    st = St()
    st, ops = lib.fresh_dict(st, "ops", "eqop", "str")
    st, opr = E.alloc(st, Ext("builtins.dict"), data=ops, kind="dict")
    cls, name, before, after = SV(fresh_v("cls"), "type"), SV(fresh_v("name"), "str"), SV(fresh_v("before")), SV(fresh_v("after"))
    RES, RAISES = z3.Function("eq_result", V, V, V, z3.BoolSort()), z3.Function("eq_raises", V, V, V, z3.BoolSort())
    E.stubs[f"{GD}:_get_eq_operator_map"] = lambda E, st, ca, ctx, fn: (E.obligation("the operators are those of the object's class", st, lib.same(E, st, ca.pos[0], cls)), [(st, opr)])[1]
    arreq, np = SV(fresh_v("array_equal"), "eqop"), SV(fresh_v("numpy"), "numpy")
    hasnp = fresh_bool("has_numpy")
    E.stubs["sys.modules.get"] = lambda E, st, ca, ctx, fn: [(s, np if b else None) for s, b in E.split(st, hasnp)]
    E.schema[("numpy", "array_equal")] = lambda E, st, v, ctx: [(st, arreq)]
    EQ, IS = to_term(E.module_value(st, GD, "operator") if False else Ext("operator.eq")), to_term(Ext("operator.is_"))
    x, y = z3.Const("x_eq", V), z3.Const("y_eq", V)
    st = st.assume(np.t != V.none, arreq.t != IS, arreq.t != EQ, z3.ForAll([x, y], z3.And(z3.Not(RAISES(IS, x, y)), RES(IS, x, y) == (x == y)), patterns=[RAISES(IS, x, y)]))

    def call_op(E, st, f, args, ctx):
        ft = to_term(f)
        a, b = [to_term(z) for z in args]
        E.obligation("operators compare the new with the old value", st, z3.And(a == after.t, b == before.t))
        out = []
        for s, r in E.split(st, RAISES(ft, a, b)):
            if r:
                s2, e = E.new_exc(s, exc_cls(E, "user.Exception"), ())
                ctx.sink.append((s2, e))
            else:
                out.append((s.assume(z3.Implies(ft == IS, RES(ft, a, b) == (a == b))), SBool(RES(ft, a, b))))
        return out
    E.schema[("eqop", "()")] = lambda E, st, f, ca, ctx: call_op(E, st, f, ca.pos, ctx)
    for nm in ("operator.eq", "operator.is_"):
        E.stubs[nm] = lambda E, st, ca, ctx, fn, nm=nm: call_op(E, st, Ext(nm), ca.pos, ctx)
    NUL = to_term(E.module_value(st, GD, "_NULL"))
    op = z3.If(ops.has(name.t), ops.val(name.t).t, EQ)
    pre = st.assume(op != V.none, z3.Not(V.is_vint(op)))
    t = fresh_v("t")
    for kind, s, v in U.run(pre, f"{GD}:_check_field_equality", [cls, name, before, after]):
        now = s.d(opr)
        U.oblige("comparing the values does not fail", s, z3.BoolVal(kind == "ret"))
        if kind != "ret":
            continue
        r = zb(v) if isinstance(v, (SBool, bool)) else None
        if r is None:
            raise Unsupported(f"result {v!r}")
        fine = z3.Not(RAISES(op, after.t, before.t))
        U.oblige("a field without a value before is unchanged only if it has none afterwards", s, z3.Implies(before.t == NUL, r == (after.t == NUL)))
        U.oblige("the answer is that of the field's operator", s, z3.Implies(z3.And(before.t != NUL, fine), r == RES(op, after.t, before.t)))
        U.oblige("an operator that works is kept", s, z3.Implies(z3.And(before.t != NUL, fine), z3.And(now.has(name.t), to_term(now.val(name.t)) == op)))
        U.oblige("an operator that fails is replaced by comparing arrays or by identity", s, z3.Implies(z3.And(before.t != NUL, z3.Not(fine)),
                 z3.And(now.has(name.t), z3.Or(to_term(now.val(name.t)) == IS, to_term(now.val(name.t)) == arreq.t), r == RES(to_term(now.val(name.t)), after.t, before.t), z3.Implies(to_term(now.val(name.t)) == IS, r == (after.t == before.t)))))
        U.oblige("the operators of other fields stay as they are", s, z3.Implies(t != name.t, z3.And(now.has(t) == ops.has(t), z3.Implies(ops.has(t), to_term(now.val(t)) == ops.val(t).t))))
        U.frame("_check_field_equality", pre, s, {("d", opr.oid)})
    U.must_fail("satisfiable", pre, z3.BoolVal(False))


@unit("C18", "the operators of a class: its own __eq_operators__, or one map per class, which starts with the operators inherited", ["_get_eq_operator_map"])
def u_eqmap(U):
    E = U.E
    st = St()
    cls, own, has, inh = SV(fresh_v("cls"), "type"), SV(fresh_v("operators"), "opmap"), fresh_bool("has_own"), fresh_bool("has_inherited")
    st, base = lib.fresh_dict(st, "inherited_operators", "eqop", "str")
    st, br = E.alloc(st, Ext("builtins.dict"), data=base, kind="dict")
    NAME = "__eq_operators__"

    def attr(E, st, v, ctx):
        E.obligation("the class asked is the one given", st, v.t == cls.t)
        return [(s2, own if b else br if b2 else UNBOUND) for s, b in E.split(st, has) for s2, b2 in ([(s, None)] if b else E.split(s, inh))]

    st, vd = E.alloc(st.assume(lib.is_object(own.t)), Ext("types.MappingProxyType"), data=lib.DictS(lambda t: z3.And(t == to_term(NAME), has), lambda t: SV(own.t, "opmap"), fresh_int("n_vars")), kind="mapproxy")
    namespace = lambda E, st, v: (E.obligation("the namespace looked at is that of the class", st, to_term(v) == cls.t), [(st, vd)])[1]
    E.schema[("hasattr", NAME)] = lambda E, st, o, ctx: [(st, SBool(z3.Or(has, inh)))]
    E.schema[("type", NAME)] = attr
    E.schema[("type", "__dict__")] = lambda E, st, v, ctx: namespace(E, st, v)
    E.stubs["builtins.vars"] = lambda E, st, ca, ctx, fn: namespace(E, st, ca.pos[0])
    st, maps = lib.fresh_dict(st, "all_operators", "opmap", "type")
    st, mr = E.alloc(st, Ext("builtins.dict"), data=maps, kind="dict")
    E.schema[("glob", f"{GD}._EQ_OPERATORS")] = lambda E, st: (st, mr)
    t = fresh_v("any_name")
    for kind, s, v in U.run(st, f"{GD}:_get_eq_operator_map", [cls]):
        U.oblige("looking for the operators does not fail", s, z3.BoolVal(kind == "ret"))
        if kind != "ret":
            continue
        U.oblige("__eq_operators__ of the class itself are used", s, z3.Implies(has, to_term(v) == own.t))
        U.oblige("otherwise the map kept for this class", s, z3.Implies(z3.And(z3.Not(has), maps.has(cls.t)), to_term(v) == maps.val(cls.t).t))
        new = [o for o in s.heap if o not in st.heap and s.heap[o].kind == "dict"]
        now, later = lib.dict_to_s(E, s.d(mr)), z3.And(z3.Not(has), z3.Not(maps.has(cls.t)))
        U.oblige("a class without operators of its own gets a map of its own, which is kept", s, z3.Implies(later, z3.And(now.has(cls.t), to_term(now.val(cls.t)) == to_term(v), z3.Or([to_term(v) == to_term(Ref(o)) for o in new]))))
        for o in new:
            d = lib.dict_to_s(E, s.heap[o].data)
            U.oblige("that map has the operators inherited, if any", s, z3.Implies(z3.And(later, to_term(v) == to_term(Ref(o))), z3.And(
                d.has(t) == z3.And(inh, base.has(t)), z3.Implies(d.has(t), to_term(d.val(t)) == to_term(base.val(t))))))
        U.oblige("the maps of other classes are kept", s, z3.Implies(t != cls.t, z3.And(now.has(t) == maps.has(t), z3.Implies(now.has(t), to_term(now.val(t)) == to_term(maps.val(t))))))
        U.frame("_get_eq_operator_map", st, s, {("d", mr.oid)})
    U.must_fail("satisfiable", st, z3.BoolVal(False))


def descriptor(U, st, name, **over):
    E = U.E
    st, m = lib.fresh_dict(st, "instance_map", "group", "int")
    st, mr = E.alloc(st, Ext("builtins.dict"), data=m, kind="dict")
    st, gs = lib.fresh_dict(st, "signal_groups", "groupcls", "int")
    st, gr = E.alloc(st, Ext("builtins.dict"), data=gs, kind="dict")
    fields = {"_name": name, "_cache_on_instance": SBool(fresh_bool("cache")), "_instance_map": mr, "_signal_groups": gr,
              "_eqop": SV(fresh_v("eqop")), "_warn_on_no_fields": SBool(fresh_bool("warn")), "_patch_setattr": SBool(fresh_bool("patch")),
              "_signal_group_class": SV(fresh_v("grpcls"), "groupcls"), "_collect_fields": True, "_signal_aliases": SV(fresh_v("aliases"))}
    fields.update(over)
    st, d = E.alloc(st, E.loader.cls(GD, "SignalGroupDescriptor"), fields)
    return st, d, m, mr, gs, gr


def id_of(E, st, v):
    [(s, r)] = lib.FUNCS["builtins.id"](E, st, CallArgs([v]), None)
    return to_term(r)


@unit("C18", "every instance has one group, its own: the one kept for it, or else a new one bound to it, which is kept and forgotten when the instance dies",
      ["SignalGroupDescriptor.__get__"])
def u_descriptor_get(U):
    E = U.E
    for named in (True, False):
        st = St()
        name = "events" if named else None
        st, d, m, mr, gs, gr = descriptor(U, st, name)
        inst, owner = SV(fresh_v("inst"), "instance"), SV(fresh_v("owner"), "type")
        gcls = SV(fresh_v("group_class"), "groupcls")
        k1 = id_of(E, st, inst)
        st = st.assume(inst.t != V.none).g(made=(), fin=(), cached=())
        x = z3.Const("x_im", V)

        def get_group(E, st, ca, ctx, fn):
            E.obligation("the group is one of the group class of the instance's class", st, lib.same(E, st, ca.pos[1], owner))
            return [(st, gcls)]
        E.stubs[f"{GD}:SignalGroupDescriptor._get_signal_group"] = get_group

        def make(E, st, f, ca, ctx):
            inst_ = ca.pos[0] if ca.pos else ca.kw.get("instance")
            E.obligation("a new group is made from the class's group class and bound to the instance", st, z3.And(f.t == gcls.t, lib.same(E, st, inst_, inst)))
            g = SV(fresh_v("newgroup"), "group")
            st = st.assume(g.t != V.none, z3.ForAll([x], m.val(x).t != g.t, patterns=[m.val(x).t]))
            return [(st.g(made=st.ghost["made"] + (g,)), g)]
        E.schema[("groupcls", "()")] = make

        def cache(E, st, o, nm, v, ctx):
            s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
            ctx.sink.append((s, e))
            return [st.g(cached=st.ghost["cached"] + ((o, nm, v),))]
        E.schema[("instance", "=")] = cache
        E.schema[("setattr", "dynamic")] = lambda E, st, o, nm, v, ctx: [(s, None) for s in cache(E, st, o, nm, v, ctx)]

        def finalize(E, st, ca, ctx):
            s, e = E.new_exc(st, exc_cls(E, "builtins.TypeError"), ())
            ctx.sink.append((s.g(nofin=True), e))
            return [(st.g(fin=st.ghost["fin"] + (ca,)), SV(fresh_v("fin")))]
        E.schema[("weakref", "finalize")] = finalize
        E.assumptions.add("weakref.finalize(obj, f, *args) calls f(*args) once when obj dies, or raises TypeError")
        own = SV(fresh_v("own"), "group")
        for kind, s, v in U.run(st, f"{GD}:SignalGroupDescriptor.__get__", [d, None, owner]):
            U.oblige("on the class: the descriptor itself", s, z3.And(z3.BoolVal(kind == "ret"), lib.same(E, s, v, d)))
            U.frame("__get__ on the class", st, s, set())
        for kind, s, v in U.run(st, f"{GD}:SignalGroupDescriptor.__get__", [d, inst, owner]):
            U.oblige("getting the group does not fail", s, z3.BoolVal(kind == "ret"))
            if kind != "ret":
                continue
            now, made = s.d(mr), s.ghost["made"]
            t = fresh_v("t")
            had = m.has(k1)
            U.oblige("an instance that has a group keeps it", s, z3.Implies(had, z3.And(to_term(v) == m.val(k1).t, z3.BoolVal(not made))))
            U.oblige("an instance without a group gets exactly one new group", s, z3.Implies(z3.Not(had), z3.And(z3.BoolVal(len(made) == 1), *([to_term(v) == made[0].t] if made else []))))
            U.oblige("the group is kept for the instance", s, z3.And(now.has(k1), to_term(now.val(k1)) == to_term(v)))
            U.oblige("the groups of other instances stay theirs", s, z3.Implies(t != k1, z3.And(now.has(t) == m.has(t), z3.Implies(m.has(t), to_term(now.val(t)) == m.val(t).t))))
            for o, nm, g in s.ghost["cached"]:
                U.oblige("what is cached on the instance is its group, under the descriptor's name", s, z3.And(lib.same(E, s, o, inst), lib.same(E, s, nm, name), to_term(g) == to_term(v)))
            for ca in s.ghost["fin"]:
                U.oblige("the group is forgotten when the instance dies, not before", s, lib.same(E, s, ca.pos[0], inst))
                c = U.ctx(GD)
                outs = E.call(s, ca.pos[1], CallArgs(list(ca.pos[2:]), ca.star, ca.kw), c)
                U.oblige("forgetting it does not fail", s, z3.BoolVal(len(outs) >= 1 and not c.sink))
                for s2, _ in outs:
                    n2 = s2.d(mr)
                    U.oblige("when the instance dies exactly its entry is removed (its id may be used again)", s2,
                             z3.And(z3.Not(n2.has(k1)), z3.Implies(t != k1, z3.And(n2.has(t) == now.has(t), z3.Implies(now.has(t), to_term(n2.val(t)) == to_term(now.val(t)))))))
            if made:
                U.oblige("a new group of an instance that can be referenced is forgotten with it", s, z3.BoolVal(len(s.ghost["fin"]) == 1 or "nofin" in s.ghost))
            U.frame("__get__", st, s, {("d", mr.oid), ("g", "made"), ("g", "fin"), ("g", "cached"), ("g", "nofin")})
        U.must_fail("satisfiable", st, z3.BoolVal(False))


@unit("C18", "one group class for each class, created once", ["SignalGroupDescriptor._get_signal_group"])
def u_get_signal_group(U):
    E = U.E
    st, d, m, mr, gs, gr = descriptor(U, St(), "events")
    owner, new = SV(fresh_v("owner"), "type"), SV(fresh_v("created"), "groupcls")
    st = st.g(made=0, fin=())

    def finalize(E, st, ca, ctx):
        return [(st.g(fin=st.ghost["fin"] + (ca,)), SV(fresh_v("fin")))]
    E.schema[("weakref", "finalize")] = finalize
    E.assumptions.add("weakref.finalize(cls, f, *args) calls f(*args) once when the class dies (classes can be referenced weakly)")

    def create(E, st, ca, ctx, fn):
        E.obligation("created for the class asked for", st, lib.same(E, st, ca.pos[1], owner))
        return [(st.g(made=st.ghost["made"] + 1), new)]
    E.stubs[f"{GD}:SignalGroupDescriptor._create_group"] = create
    k = id_of(E, st, owner)
    t = fresh_v("t")
    for kind, s, v in U.run(st, f"{GD}:SignalGroupDescriptor._get_signal_group", [d, owner]):
        now = s.d(gr)
        U.oblige("does not fail", s, z3.BoolVal(kind == "ret"))
        U.oblige("the class kept, or else a new one", s, to_term(v) == z3.If(gs.has(k), gs.val(k).t, new.t))
        U.oblige("created exactly when there was none", s, z3.BoolVal(s.ghost["made"] == 1) == z3.Not(gs.has(k)))
        U.oblige("kept for the class", s, z3.And(now.has(k), to_term(now.val(k)) == to_term(v)))
        U.oblige("those of other classes stay", s, z3.Implies(t != k, z3.And(now.has(t) == gs.has(t), z3.Implies(gs.has(t), to_term(now.val(t)) == gs.val(t).t))))
        U.oblige("one that is created is forgotten with its class", s, z3.BoolVal(len(s.ghost["fin"]) >= s.ghost["made"]))
        for ca in s.ghost["fin"]:
            U.oblige("it is forgotten when the class dies, not before", s, lib.same(E, s, ca.pos[0], owner))
            c = U.ctx(GD)
            outs = E.call(s, ca.pos[1], CallArgs(list(ca.pos[2:]), ca.star, ca.kw), c)
            U.oblige("forgetting it does not fail", s, z3.BoolVal(len(outs) >= 1 and not c.sink))
            for s2, _ in outs:
                n2 = s2.d(gr)
                U.oblige("when the class dies exactly its entry is removed (its id may be used again)", s2,
                         z3.And(z3.Not(n2.has(k)), z3.Implies(t != k, z3.And(n2.has(t) == now.has(t), z3.Implies(now.has(t), to_term(n2.val(t)) == to_term(now.val(t)))))))
    U.must_fail("satisfiable", st, z3.BoolVal(False))


@unit("C18", "a class is patched once for each namespace: its __setattr__ is replaced by the evented one that calls it", ["SignalGroupDescriptor._do_patch_setattr"])
def u_do_patch(U):
    E = U.E
    for name, names in (("events", ()), ("events", ("other",)), ("events", ("events",)), ("events", ("other", "events")), (None, ())):
        st = St()
        st, d, m, mr, gs, gr = descriptor(U, st, name)
        owner, old = SV(fresh_v("owner"), "owner"), SV(fresh_v("old_setattr"), "oldset")
        st = st.g(written=(), evented=())
        hasname, patch = fresh_bool("has_name"), zb(st.obj(d).fields["_patch_setattr"])
        E.schema[("owner", "__setattr__")] = lambda E, st, v, ctx: [(st, old)]
        E.schema[("oldset", PATCHED)] = lambda E, st, v, ctx: [(st, names)]
        E.schema[("owner", "events")] = lambda E, st, v, ctx: [(st, d)]
        E.schema[("hasattr", "events")] = lambda E, st, o, ctx: [(s, b) for s, b in E.split(st, hasname)]

        def write(E, st, o, nm, v, ctx):
            s, e = E.new_exc(st, exc_cls(E, "builtins.TypeError"), ())
            ctx.sink.append((s.g(refused=True), e))
            return [st.g(written=st.ghost["written"] + ((o, nm, v),))]
        E.schema[("owner", "=")] = write

        def ev(E, st, ca, ctx, fn):
            fr = dict(zip(("signal_group_name", "super_setattr", "with_aliases"), ca.pos), **ca.kw)
            r = SV(fresh_v("evented"), "newset")
            return [(st.g(evented=st.ghost["evented"] + ((fr, r),)), r)]
        E.stubs[f"{GD}:evented_setattr"] = ev
        wa = SBool(fresh_bool("with_aliases"))
        what = f"patching for {name!r} (patched for {names})"
        for kind, s, v in U.run(st, f"{GD}:SignalGroupDescriptor._do_patch_setattr", [d, owner], {"with_aliases": wa}):
            w, evs = s.ghost["written"], s.ghost["evented"]
            todo = z3.And(patch, z3.BoolVal(name not in names))
            can = z3.And(hasname, z3.BoolVal(name is not None))
            if kind == "raise":
                U.oblige(f"{what}: it fails only when the descriptor is not on the class or the class refuses", s, z3.And(todo, z3.Or(z3.Not(can), z3.BoolVal("refused" in s.ghost)), z3.BoolVal(not w)))
                continue
            U.oblige(f"{what}: done exactly when wanted and not done yet", s, z3.BoolVal(len(w) == 1) == todo)
            U.oblige(f"{what}: it does not succeed silently without patching", s, z3.And(z3.BoolVal("refused" not in s.ghost), z3.Implies(todo, can)))
            for o, nm, val in w:
                ok = len(evs) == 1
                U.oblige(f"{what}: __setattr__ of the class becomes the evented version of what it was", s, z3.And(lib.same(E, s, o, owner), z3.BoolVal(nm == "__setattr__" and ok), *([to_term(val) == evs[0][1].t, lib.same(E, s, evs[0][0].get("signal_group_name"), name), lib.same(E, s, evs[0][0].get("super_setattr"), old), lib.same(E, s, evs[0][0].get("with_aliases", True), wa)] if ok else [])))
            U.frame(what, st, s, {("g", "written"), ("g", "evented"), ("g", "refused")})
        U.must_fail("satisfiable", st.assume(patch, hasname), z3.BoolVal(False))


@unit("C18", "the group class of a class: built from its fields (or the one given), patching the class once; the group class given is left as it is",
      ["SignalGroupDescriptor._create_group"])
def u_create_group(U):
    E = U.E
    for collect, mapped, ops in ((True, 1, None), (True, 0, None), (False, 1, 0), (False, 0, 0), (False, 0, 1), (False, 2, 1)):
        if True:
            st = St()
            given = SV(fresh_v("given"), "groupcls")
            st, al = lib.fresh_dict(st, "aliases", None, "str")
            st, alr = E.alloc(st, Ext("builtins.dict"), data=al, kind="dict")
            amap, nonempty = SV(fresh_v("aliases_mapping"), "aliasmap"), fresh_bool("mapping_not_empty")     # a Mapping that is no dict
            E.schema[("aliasmap", "isinstance")] = lambda E, st, v, c: True if c.endswith("Mapping") else False if c == "builtins.dict" else None
            E.schema[("aliasmap", "truth")] = lambda E, st, v, ctx: [(st, nonempty)]
            E.stubs["builtins.callable"] = lambda E, st, ca, ctx, fn: [(st, False)]      # the constructor refuses functions here
            aliases = (None, alr, amap)[mapped]
            f1, f2 = SV(fresh_v("op_a"), "eqop"), SV(fresh_v("op_b"), "eqop")
            st = st.assume(lib.is_object(f1.t), lib.is_object(f2.t), lib.is_object(amap.t))
            st, eqm = lib.fresh_dict(st, "class_ops", "eqop", "str")
            st, eqr = E.alloc(st, Ext("builtins.dict"), data=eqm, kind="dict")
            owner = SV(fresh_v("owner"), "type")
            E.stubs[f"{GD}:_get_eq_operator_map"] = lambda E, st, ca, ctx, fn: (E.obligation("the operators are those of the class", st, lib.same(E, st, ca.pos[0], owner)), [(st, eqr)])[1]
            st, d, m, mr, gs, gr = descriptor(U, st, "events", _collect_fields=collect, _signal_group_class=given, _signal_aliases=aliases,
                                              **({} if ops is None else {"_eqop": (("a", f1), ("b", f2)) if ops else None}))
            ALIASES, SIGNALS = fresh_fun("aliases_of", V, V), fresh_fun("signals_of", V, V)
            st = st.g(built=(), sub=(), patched=(), warned=0)
            E.schema[("groupcls", "_psygnal_aliases")] = lambda E, st, v, ctx: [(st.assume(z3.Not(V.is_vint(ALIASES(v.t))), z3.Not(V.is_vbool(ALIASES(v.t))), ALIASES(v.t) != V.none), SV(ALIASES(v.t), "mapping"))]
            E.schema[("groupcls", "_psygnal_signals")] = lambda E, st, v, ctx: [(st.assume(z3.Not(V.is_vint(SIGNALS(v.t))), z3.Not(V.is_vbool(SIGNALS(v.t))), SIGNALS(v.t) != V.none), SV(SIGNALS(v.t), "mapping"))]
            E.schema[("groupcls", "__name__")] = lambda E, st, v, ctx: [(st, SV(fresh_v("clsname"), "str"))]
            E.schema[("groupcls", "=")] = lambda E, st, o, nm, v, ctx: (E.obligation("the group class given is not modified", st, z3.BoolVal(False)), [st])[1]
            E.stubs["copy.deepcopy"] = lambda E, st, ca, ctx, fn: [(st, ca.pos[0])]
            E.stubs["copy.copy"] = E.stubs["copy.deepcopy"]
            E.assumptions.add("copying a class gives the class itself")
            E.stubs["warnings.warn"] = lambda E, st, ca, ctx, fn: [(st.g(warned=st.ghost["warned"] + 1), None)]
            tyfn = lib.FUNCS["builtins.type"]

            def mktype(E, st, ca, ctx, fn):
                if len(ca.pos) == 1:
                    return tyfn(E, st, ca, ctx)
                r = SV(fresh_v("subclass"), "groupcls")
                return [(st.g(sub=st.ghost["sub"] + ((ca, r),)).assume(r.t != given.t), r)]
            E.stubs["builtins.type"] = mktype

            def build(E, st, ca, ctx, fn):
                fr = dict(zip(("cls", "signal_group_class", "equality_operators", "signal_aliases"), ca.pos), **ca.kw)
                r = SV(fresh_v("built"), "groupcls")
                return [(st.g(built=st.ghost["built"] + ((fr, r),)).assume(r.t != given.t), r)]
            E.stubs[f"{GD}:_build_dataclass_signal_group"] = build

            def patch(E, st, ca, ctx, fn):
                fr = dict(zip(("self", "owner", "with_aliases"), ca.pos), **ca.kw)
                return [(st.g(patched=st.ghost["patched"] + (fr,)), None)]
            E.stubs[f"{GD}:SignalGroupDescriptor._do_patch_setattr"] = patch
            what = f"group class ({'fields' if collect else 'given'}, {('no aliases', 'aliases', 'aliases in a mapping')[mapped]}{', operators' if ops else ''})"
            warn = zb(st.obj(d).fields["_warn_on_no_fields"])
            for kind, s, v in U.run(st, f"{GD}:SignalGroupDescriptor._create_group", [d, owner]):
                U.oblige(f"{what}: creating it does not fail", s, z3.BoolVal(kind == "ret"))
                if kind != "ret":
                    continue
                b, sub, pt = s.ghost["built"], s.ghost["sub"], s.ghost["patched"]
                if collect:
                    U.oblige(f"{what}: it is built once, for this class", s, z3.BoolVal(len(b) == 1 and not sub))
                    for fr, r in b:
                        eq = s.obj(d).fields["_eqop"]
                        U.oblige(f"{what}: from the class, the group class, the operators and aliases the descriptor was given", s, z3.And(to_term(v) == r.t, lib.same(E, s, fr.get("cls"), owner), lib.same(E, s, fr.get("signal_group_class"), given), lib.same(E, s, fr.get("equality_operators"), eq), lib.same(E, s, fr.get("signal_aliases"), aliases)))
                else:
                    U.oblige(f"{what}: fields are not collected", s, z3.BoolVal(not b))
                    some = (z3.BoolVal(False), al.n > 0, nonempty)[mapped]
                    e2, x = lib.dict_to_s(E, s.d(eqr)), fresh_v("x")
                    gv = {"a": f1, "b": f2} if ops else {}
                    U.oblige(f"{what}: fields are compared by the operators given, the others as before", s, z3.And(
                        e2.has(x) == z3.Or(eqm.has(x), *[x == to_term(k) for k in gv]),
                        z3.Implies(e2.has(x), to_term(e2.val(x)) == (z3.If(x == to_term("a"), f1.t, z3.If(x == to_term("b"), f2.t, to_term(eqm.val(x)))) if ops else to_term(eqm.val(x))))))
                    U.oblige(f"{what}: the class given is used as it is, unless aliases are given: then a subclass with them", s, z3.BoolVal(len(sub) == 1) == some if len(sub) < 2 else z3.BoolVal(False))
                    if sub:
                        ca, r = sub[0]
                        ok = len(ca.pos) == 3 and set(ca.kw) == {"signal_aliases"}
                        U.oblige(f"{what}: the subclass has the aliases and nothing else", s, z3.And(z3.BoolVal(ok), to_term(v) == r.t, *([lib.same_data(E, s, ca.kw["signal_aliases"], aliases) if hasattr(lib, "same_data") else lib.same(E, s, ca.kw["signal_aliases"], aliases)] if ok else [])))
                        bases = ca.pos[1] if ok else ()
                        U.oblige(f"{what}: it derives from the class given", s, z3.And(z3.BoolVal(isinstance(bases, tuple) and len(bases) == 1), *([lib.same(E, s, bases[0], given)] if isinstance(bases, tuple) and bases else [])))
                    else:
                        U.oblige(f"{what}: the class given", s, to_term(v) == given.t)
                U.oblige(f"{what}: the class is patched once", s, z3.BoolVal(len(pt) == 1))
                for fr in pt:
                    U.oblige(f"{what}: the class patched is the one the group is for", s, z3.And(lib.same(E, s, fr["owner"], owner)))
                U.oblige(f"{what}: a class without signals is warned about", s, z3.Implies(z3.And(warn, z3.Not(lib.truthy(SIGNALS(to_term(v)))), SIGNALS(to_term(v)) != V.none), z3.BoolVal(s.ghost["warned"] == 1)))
                U.frame(what, st, s, {("d", eqr.oid)} | {("g", k) for k in ("built", "sub", "patched", "warned")})
            U.must_fail("satisfiable", st, z3.BoolVal(False))


def groupcls_dicts(E, st, given):
    """a SignalGroup class: its declared signals and its aliases (any mappings)"""
    st, sg = lib.fresh_dict(st, "base_signals", None, "str")
    st, sr = E.alloc(st, Ext("builtins.dict"), data=sg, kind="dict")
    st, ga = lib.fresh_dict(st, "base_aliases", None, "str")
    st, gar = E.alloc(st, Ext("builtins.dict"), data=ga, kind="dict")
    E.schema[("groupcls", "_psygnal_signals")] = lambda E, st, v, ctx: (E.obligation("the signals of the group class given", st, v.t == given.t), [(st, sr)])[1]
    E.schema[("groupcls", "_psygnal_aliases")] = lambda E, st, v, ctx: (E.obligation("the aliases of the group class given", st, v.t == given.t), [(st, gar)])[1]
    return st, sg, sr, ga, gar


def u_build_group(U, how):
    E = U.E
    for _ in (0,):
        for ops_given in (False, True):
            st = St()
            given, owner = SV(fresh_v("given"), "groupcls"), SV(fresh_v("owner"), "type")
            st = st.assume(lib.is_object(given.t), lib.is_object(owner.t))
            st, sg, sr, ga, gar = groupcls_dicts(E, st, given)
            st, al = lib.fresh_dict(st, "aliases", None, "str")
            st, alr = E.alloc(st, Ext("builtins.dict"), data=al, kind="dict")
            st, op = lib.fresh_dict(st, "given_ops", "eqop", "str")
            st, opr = E.alloc(st, Ext("builtins.dict"), data=op, kind="dict")
            st, eq = lib.fresh_dict(st, "ops", "eqop", "str")
            st, eqr = E.alloc(st, Ext("builtins.dict"), data=eq, kind="dict")
            tr = SV(fresh_v("transform"), "transform")
            N = fresh_int("n_fields")
            NAME, TY, IDX = fresh_fun("field_name", I, V), fresh_fun("field_type", I, V), fresh_fun("field_index", V, I)
            j, t = z3.Int("j_f"), z3.Const("t_f", V)
            inr = lambda k: z3.And(0 <= k, k < N)
            st = st.assume(N >= 0, fa([j], z3.Implies(inr(j), z3.And(IDX(NAME(j)) == j, NAME(j) != V.none, z3.Not(V.is_vint(NAME(j))), z3.Not(V.is_vbool(NAME(j))))), NAME(j)),
                           fa([t], z3.And(IDX(t) >= 0, IDX(t) <= N, z3.Implies(IDX(t) < N, NAME(IDX(t)) == t)), IDX(t)))
            E.stubs[f"{GD}:iter_fields"] = lambda E, st, ca, ctx, fn: (E.obligation("the fields are those of the class", st, lib.same(E, st, ca.pos[0], owner)), [(st, Seq(N, lambda k: (SV(NAME(zlen(k)), "str"), SV(TY(zlen(k)), "type?"))))])[1]
            E.stubs[f"psygnal._dataclass_utils:iter_fields"] = E.stubs[f"{GD}:iter_fields"]
            E.stubs[f"{GD}:_get_eq_operator_map"] = lambda E, st, ca, ctx, fn: (E.obligation("the operators are those of the class", st, lib.same(E, st, ca.pos[0], owner)), [(st, eqr)])[1]
            PICK, TRF, CALLABLE = fresh_fun("picked", V, V), fresh_fun("transformed", V, V), fresh_fun("is_callable", V, B)
            E.stubs[f"{GD}:_pick_equality_operator"] = lambda E, st, ca, ctx, fn: [(st, SV(PICK(to_term(ca.pos[0])), "eqop"))]
            E.schema[("transform", "()")] = lambda E, st, f, ca, ctx: [(st, SV(TRF(to_term(ca.pos[0]))))]
            E.assumptions.add("a function given as signal_aliases is deterministic, gives names or None, and does not touch psygnal's objects")
            E.stubs["builtins.callable"] = lambda E, st, ca, ctx, fn: [(st, SBool(CALLABLE(to_term(ca.pos[0])))) if not isinstance(ca.pos[0], Ref) else (st, False)]
            st = st.assume(CALLABLE(tr.t), lib.is_object(tr.t), z3.Not(CALLABLE(V.none)), fa([t], lib.is_object(PICK(t)), PICK(t)))
            E.stubs["warnings.warn"] = lambda E, st, ca, ctx, fn: [(st, None)]
            E.assumptions.add("warnings are not turned into errors")
            # the alias of a field; the first field for a signal name; the number of signals before field m
            alias = {"mapping": lambda x: z3.If(al.has(x), to_term(al.val(x)), z3.If(ga.has(x), to_term(ga.val(x)), x)), "callable": lambda x: TRF(x),
                     "none": lambda x: z3.If(ga.has(x), to_term(ga.val(x)), x)}[how]
            A = lambda k: alias(NAME(k))
            FIRST, R = fresh_fun("first_field", V, I), fresh_fun("rank", I, I)
            st = st.assume(fa([t], z3.And(FIRST(t) >= 0, FIRST(t) <= N, z3.Implies(FIRST(t) < N, A(FIRST(t)) == t)), FIRST(t)),
                           fa([j], z3.Implies(inr(j), z3.And(FIRST(A(j)) <= j)), NAME(j)), R(0) == 0)
            for x in (al, ga):
                st = st.assume(fa([t], z3.Implies(x.has(t), z3.And(*[z3.Not(p(to_term(x.val(t)))) for p in (V.is_vint, V.is_vbool)])), to_term(x.val(t))))
            st = st.assume(fa([t], z3.And(z3.Not(V.is_vint(TRF(t))), z3.Not(V.is_vbool(TRF(t)))), TRF(t)))
            makes = lambda m: z3.And(A(m) != V.none, z3.Not(sg.has(A(m))), FIRST(A(m)) == m)
            POS = fresh_fun("at_signal", I, I)
            SIGD = fresh_fun("signal_made", I, V)
            EMPTY = Seq.of(())
            st = st.g(t0=EMPTY, t1=EMPTY, cls=EMPTY, made=())
            st = st.assume(fa([j], lib.is_object(SIGD(j)), SIGD(j)))
            st = st.g(made=())

            def mksignal(E, st, ca, ctx, fn):
                ok = len(ca.pos) == 2 and not ca.kw and ca.star is None
                E.obligation("a field's signal has two arguments: the new and the old value", st, z3.BoolVal(ok))
                k = st.ghost["t0"].zn()
                g = st.ghost
                return [(st.g(t0=seq_append(g["t0"], SV(to_term(ca.pos[0]))), t1=seq_append(g["t1"], SV(to_term(ca.pos[1])))), SV(SIGD(k), "sigdecl"))]
            E.stubs[f"{SIG}:Signal"] = mksignal

            def setcls(E, st, o, nm, v, ctx):
                if nm != "_signal_instance_class":
                    raise Unsupported(f"setting {nm} of a declared signal")
                E.obligation("a field's signal makes field signal instances (their connect_setattr takes the new value only)", st, z3.BoolVal(isinstance(v, lib.ClassInfo) and v.name == "_DataclassFieldSignalInstance" if hasattr(v, "name") else False))
                return [st.g(cls=seq_append(st.ghost["cls"], SV(o.t)))]
            E.schema[("sigdecl", "=")] = setcls
            tyfn = lib.FUNCS["builtins.type"]

            def mktype(E, st, ca, ctx, fn):
                if len(ca.pos) == 1:
                    return tyfn(E, st, ca, ctx)
                r = SV(fresh_v("newgroup"), "groupcls")
                s, e = E.new_exc(st, exc_cls(E, "user.Exception"), ())
                ctx.sink.append((s.g(clserr=e), e))
                return [(st.g(made=st.ghost["made"] + ((ca, r),)).assume(r.t != given.t), r)]
            E.stubs["builtins.type"] = mktype
            E.schema[("groupcls", "__name__")] = lambda E, st, v, ctx: [(st, SV(fresh_v("clsname"), "str"))]
            E.schema[("type", "__name__")] = E.schema[("groupcls", "__name__")]
            E.schema[("groupcls", "=")] = lambda E, st, o, nm, v, ctx: (E.obligation("the group class given is not modified", st, z3.BoolVal(False)), [st])[1]
            kept = lambda x: z3.If(eq.has(x), to_term(eq.val(x)), PICK(TY(IDX(x))))
            opval = lambda x: z3.If(op.has(x), to_term(op.val(x)), kept(x)) if ops_given else kept(x)
            objt = lambda k: z3.If(TY(k) == V.none, to_term(Ext("builtins.object")), TY(k))
            over = {"mapping": lambda x: z3.And(z3.Not(al.has(x)), ga.has(x)), "callable": lambda x: z3.BoolVal(True), "none": lambda x: ga.has(x)}[how]
            signals_at = lambda m: DictS(lambda x: z3.And(FIRST(x) < zlen(m), x != V.none, z3.Not(sg.has(x))), lambda x: SV(SIGD(R(FIRST(x))), "sigdecl"), R(zlen(m)))
            CNT = fresh_fun("n_aliases", I, I)
            ACNT = fresh_fun("n_ops", I, I)
            a0 = al if how == "mapping" else None
            aliases_at = lambda m: DictS(lambda x: z3.Or(a0.has(x) if a0 else z3.BoolVal(False), z3.And(IDX(x) < zlen(m), over(x))),
                                         lambda x: SV(z3.If(a0.has(x), to_term(a0.val(x)), alias(x)) if a0 else alias(x)), CNT(zlen(m)))
            eq_at = lambda m: DictS(lambda x: z3.Or(eq.has(x), IDX(x) < zlen(m)), lambda x: SV(z3.If(IDX(x) < zlen(m), opval(x), to_term(eq.val(x))), "eqop"), ACNT(zlen(m)))

            def facts(m):
                m = zlen(m)
                return [R(m + 1) == R(m) + z3.If(makes(m), 1, 0), z3.Implies(makes(m), POS(R(m)) == m), R(m) >= 0,
                        CNT(m + 1) == CNT(m) + z3.If(z3.And(over(NAME(m)), z3.Not(a0.has(NAME(m))) if a0 else z3.BoolVal(True)), 1, 0),
                        ACNT(m + 1) == ACNT(m) + z3.If(eq.has(NAME(m)), 0, 1)]

            def inv(s, m):
                m = zlen(m)
                return [("signals are numbered", fa([j], z3.Implies(z3.And(0 <= j, j < m, makes(j)), z3.And(R(j) >= 0, R(j) < R(m), POS(R(j)) == j)), R(j))),
                        ("and each number is one field's", z3.And(R(m) >= 0, R(m) <= m, fa([j], z3.Implies(z3.And(0 <= j, j < R(m)), z3.And(POS(j) >= 0, POS(j) < m, R(POS(j)) == j, makes(POS(j)))), POS(j))))]
            st = st.assume(CNT(0) == (a0.n if a0 else 0), ACNT(0) == eq.n)
            def cand(fn, fits):
                fn = (lambda f: lambda m: f(m))(fn)
                fn.fits = fits
                return fn
            isval = lambda cls: lambda loc, samples: any(isinstance(x, DictS) and getattr(x.val(z3.Const("probe_v", V)), "cls", None) == cls for x in samples)
            types_at = lambda m: Seq(R(zlen(m)), lambda k: SV(objt(POS(zlen(k)))))
            cands = [cand(eq_at, lambda loc, samples: loc == ("d", eqr.oid)), cand(signals_at, isval("sigdecl")), cand(aliases_at, lambda loc, samples: loc[0] == "d" and not isval("sigdecl")(loc, samples)),
                     cand(types_at, lambda loc, samples: loc in (("g", "t0"), ("g", "t1"))), cand(lambda m: Seq(R(zlen(m)), lambda k: SV(SIGD(zlen(k)))), lambda loc, samples: loc == ("g", "cls"))]
            E.loop_specs[f"{GD}:_build_dataclass_signal_group"] = lambda L: {
                "cands": cands, "facts": facts, "inv": inv}
            args = [owner, given, opr if ops_given else None, {"none": None, "mapping": alr, "callable": tr}[how]]
            pre = st
            what = f"aliases: {how}, operators: {'given' if ops_given else 'none'}"
            bad = z3.Exists([j], z3.And(inr(j), op.has(NAME(j)), z3.Not(CALLABLE(to_term(op.val(NAME(j))))))) if ops_given else z3.BoolVal(False)
            x, k = fresh_v("x"), fresh_int("k")
            for kind, s, v in U.run(pre, f"{GD}:_build_dataclass_signal_group", args):
                if kind == "raise":
                    U.oblige(f"{what}: building fails only for an operator that cannot be called, or where the class cannot be made", s, z3.Or(z3.And(z3.BoolVal(U.exc_is(s, v, "TypeError")), bad), z3.BoolVal(v == s.ghost.get("clserr"))))
                else:
                    m = s.ghost["made"]
                    U.oblige(f"{what}: one class is made", s, z3.BoolVal(len(m) == 1))
                    for ca, r in m:
                        ok = len(ca.pos) == 3 and set(ca.kw) == {"signal_aliases"} and isinstance(ca.pos[1], tuple) and len(ca.pos[1]) == 1 and isinstance(ca.pos[2], Ref) and isinstance(ca.kw["signal_aliases"], Ref)
                        U.oblige(f"{what}: it is the class returned", s, z3.And(z3.BoolVal(ok), to_term(v) == r.t))
                        if not ok:
                            continue
                        U.oblige(f"{what}: it derives from the group class given", s, to_term(ca.pos[1][0]) == given.t)
                        d = lib.dict_to_s(E, s.d(ca.pos[2]))
                        aa = lib.dict_to_s(E, s.d(ca.kw["signal_aliases"]))
                        U.oblige(f"{what}: every field has a signal under its alias, except those with none or one that the group class declares itself", s, z3.Implies(z3.And(inr(k), A(k) != V.none, z3.Not(sg.has(A(k)))), d.has(A(k))))
                        U.oblige(f"{what}: all signals are those of fields", s, z3.Implies(d.has(x), z3.And(FIRST(x) < N, A(FIRST(x)) == x, x != V.none, z3.Not(sg.has(x)))))
                        q = FIRST(x)
                        g = s.ghost
                        U.oblige(f"{what}: the signal of a field is a new one, declared with the field's type for both values", s, z3.Implies(d.has(x), z3.And(to_term(d.val(x)) == SIGD(R(q)), POS(R(q)) == q, R(q) < g["t0"].zn(), R(q) >= 0,
                                 to_term(g["t0"].at(R(q))) == objt(q), to_term(g["t1"].at(R(q))) == objt(q), R(q) < g["cls"].zn(), to_term(g["cls"].at(R(q))) == SIGD(R(q)))))
                        kf = NAME(k)
                        U.oblige(f"{what}: a field is found under its alias", s, z3.Implies(inr(k), z3.If(aa.has(kf), to_term(aa.val(kf)) == A(k), A(k) == kf)))
                        U.oblige(f"{what}: the aliases given are kept, and no others are made up", s, z3.And(z3.Implies(al.has(x), z3.And(aa.has(x), to_term(aa.val(x)) == to_term(al.val(x)))) if how == "mapping" else z3.BoolVal(True),
                                 z3.Implies(z3.And(aa.has(x), z3.Not(al.has(x)) if how == "mapping" else z3.BoolVal(True)), IDX(x) < N)))
                    e2 = lib.dict_to_s(E, s.d(eqr))
                    U.oblige(f"{what}: each field is compared by the operator given for it, or else the class's own, or else the one for its type", s, z3.Implies(inr(k), z3.And(e2.has(NAME(k)), to_term(e2.val(NAME(k))) == opval(NAME(k)))))
                    U.oblige(f"{what}: other operators stay", s, z3.Implies(IDX(x) >= N, z3.And(e2.has(x) == eq.has(x), z3.Implies(eq.has(x), to_term(e2.val(x)) == to_term(eq.val(x))))))
                U.frame(what, pre, s, {("d", eqr.oid)} | {("g", z) for z in ("t0", "t1", "cls", "made", "clserr")})
            U.must_fail("satisfiable", pre.assume(N > 1), z3.BoolVal(False))


for _how, _text in (("none", "without aliases"), ("mapping", "with a mapping of aliases"), ("callable", "with a function giving aliases")):
    unit("C18", f"the group class built for a class ({_text}): one signal (new, old) for each field under its alias, its comparison operator kept; nothing given is modified",
         ["_build_dataclass_signal_group"], timeout=180)(lambda U, how=_how: u_build_group(U, how))


@unit("C18", "the group class built for a class of two fields (decided exactly): signals, types, aliases and operators", ["_build_dataclass_signal_group"], timeout=120, bound="two fields")
def u_build_two(U):
    E = U.E
    OBJ = to_term(Ext("builtins.object"))
    cases = [("none", b, 1, 1, 1) for b in (None, 0, 1)] + [("mapping", b, m, 1, 1) for b in (None, 1) for m in (None, 0, 1)] + [("callable", 1, 1, x, y) for x in (0, 1) for y in (0, 1)]
    for (how, base_al, has_m, has_ta, has_tb), ops_given in itertools.product(cases, (False, True)):      # names or None
        st = St()
        given, owner = SV(fresh_v("given"), "groupcls"), SV(fresh_v("owner"), "type")
        st = st.assume(lib.is_object(given.t), lib.is_object(owner.t))
        ga, ma, mb, ta, tb = (SV(fresh_v(z), "str") if h else None for z, h in (("base_a", base_al), ("map_a", has_m), ("map_c", 1), ("tr_a", has_ta), ("tr_b", has_tb)))
        st = st.assume(*[V.is_vstr(z.t) for z in (ga, ma, mb, ta, tb) if z is not None])
        mk = lambda st, items: E.alloc(st, Ext("builtins.dict"), data=DictC(items), kind="dict")
        st, sr = mk(st, {"s": SV(fresh_v("declared"))})
        st, gar = mk(st, {"a": ga} if base_al is not None else {})
        st, alr = mk(st, {**({"a": ma} if has_m is not None else {}), "c": mb})
        TYA, TYB = SV(fresh_v("type_a"), "type?"), SV(fresh_v("type_b"), "type?")
        opa, oldb = SV(fresh_v("op_a"), "eqop"), SV(fresh_v("old_b"), "eqop")
        st = st.assume(*[lib.is_object(z.t) for z in (opa, oldb)], *[z3.Or(z.t == V.none, lib.is_object(z.t)) for z in (TYA, TYB)])
        st, opr = mk(st, {"a": opa})
        st, eqr = mk(st, {"b": oldb, "z": oldb})
        E.schema[("groupcls", "_psygnal_signals")] = lambda E, st, v, ctx, sr=sr: [(st, sr)]
        E.schema[("groupcls", "_psygnal_aliases")] = lambda E, st, v, ctx, gar=gar: [(st, gar)]
        E.stubs[f"{GD}:iter_fields"] = lambda E, st, ca, ctx, fn, TYA=TYA, TYB=TYB: [(st, Seq.of([("a", TYA), ("b", TYB)]))]
        E.stubs["psygnal._dataclass_utils:iter_fields"] = E.stubs[f"{GD}:iter_fields"]
        E.stubs[f"{GD}:_get_eq_operator_map"] = lambda E, st, ca, ctx, fn, eqr=eqr: [(st, eqr)]
        PICK, CALLABLE = fresh_fun("picked", V, V), fresh_fun("is_callable", V, B)
        E.stubs[f"{GD}:_pick_equality_operator"] = lambda E, st, ca, ctx, fn, PICK=PICK: [(st.assume(lib.is_object(PICK(to_term(ca.pos[0])))), SV(PICK(to_term(ca.pos[0])), "eqop"))]
        tr = SV(fresh_v("transform"), "transform")
        E.schema[("transform", "()")] = lambda E, st, f, ca, ctx, ta=ta, tb=tb: [(st, {"a": ta, "b": tb}[ca.pos[0]])]
        E.stubs["builtins.callable"] = lambda E, st, ca, ctx, fn, C=CALLABLE: [(st, SBool(C(to_term(ca.pos[0])))) if not isinstance(ca.pos[0], Ref) else (st, False)]
        st = st.assume(CALLABLE(tr.t), lib.is_object(tr.t), z3.Not(CALLABLE(V.none)))
        E.stubs["warnings.warn"] = lambda E, st, ca, ctx, fn: [(st, None)]
        st = st.g(sigs=(), classed=(), made=())

        def mksignal(E, st, ca, ctx, fn):
            sv = SV(fresh_v("signal"), "sigdecl")
            return [(st.assume(lib.is_object(sv.t), *[sv.t != o[0].t for o in st.ghost["sigs"]]).g(sigs=st.ghost["sigs"] + ((sv, tuple(ca.pos), dict(ca.kw)),)), sv)]
        E.stubs[f"{SIG}:Signal"] = mksignal
        E.schema[("sigdecl", "=")] = lambda E, st, o, nm, v, ctx: [st.g(classed=st.ghost["classed"] + ((o, nm, v),))]
        tyfn = lib.FUNCS["builtins.type"]

        def mktype(E, st, ca, ctx, fn):
            if len(ca.pos) == 1:
                return tyfn(E, st, ca, ctx)
            r = SV(fresh_v("newgroup"), "groupcls")
            return [(st.g(made=st.ghost["made"] + ((ca, r),)).assume(r.t != given.t), r)]
        E.stubs["builtins.type"] = mktype
        E.schema[("groupcls", "__name__")] = lambda E, st, v, ctx: [(st, SV(fresh_v("clsname"), "str"))]
        E.schema[("type", "__name__")] = E.schema[("groupcls", "__name__")]
        ta_, tb_ = to_term("a"), to_term("b")
        base_a = to_term(ga) if base_al is not None else ta_
        al = {"none": (base_a, tb_), "mapping": (to_term(ma) if has_m is not None else base_a, tb_), "callable": (to_term(ta), to_term(tb))}[how]
        S0 = to_term("s")
        ok_a = z3.And(al[0] != V.none, al[0] != S0)
        ok_b = z3.And(al[1] != V.none, al[1] != S0, z3.Not(z3.And(ok_a, al[0] == al[1])))
        objt = lambda z: z3.If(z.t == V.none, OBJ, z.t)
        what = f"two fields, aliases: {how}{'' if base_al is None else ', base aliases'}{', operators' if ops_given else ''}"
        x = fresh_v("x")
        for kind, s, v in U.run(st, f"{GD}:_build_dataclass_signal_group", [owner, given, opr if ops_given else None, {"none": None, "mapping": alr, "callable": tr}[how]]):
            if kind == "raise":
                U.oblige(f"{what}: building fails only for an operator that cannot be called", s, z3.And(z3.BoolVal(U.exc_is(s, v, "TypeError") and ops_given), z3.Not(CALLABLE(opa.t))))
                continue
            U.oblige(f"{what}: an operator that cannot be called is refused", s, z3.Or(z3.BoolVal(not ops_given), CALLABLE(opa.t)))
            m = s.ghost["made"]
            ok = len(m) == 1 and len(m[0][0].pos) == 3 and isinstance(m[0][0].pos[2], Ref) and isinstance(m[0][0].kw.get("signal_aliases"), Ref) and isinstance(m[0][0].pos[1], tuple) and len(m[0][0].pos[1]) == 1
            U.oblige(f"{what}: one class is made and returned", s, z3.And(z3.BoolVal(ok), to_term(v) == m[0][1].t if ok else z3.BoolVal(False)))
            if not ok:
                continue
            ca = m[0][0]
            U.oblige(f"{what}: it derives from the group class given", s, to_term(ca.pos[1][0]) == given.t)
            d, aa = lib.dict_to_s(E, s.d(ca.pos[2])), lib.dict_to_s(E, s.d(ca.kw["signal_aliases"]))
            U.oblige(f"{what}: a signal for each field under its alias, the first of a name; none for a field without alias or with a name the group class declares", s,
                     d.has(x) == z3.Or(z3.And(ok_a, x == al[0]), z3.And(ok_b, x == al[1])))
            g = s.ghost
            for okf, alf, ty in ((ok_a, al[0], TYA), (ok_b, al[1], TYB)):
                U.oblige(f"{what}: the field's signal is its own, with its type for the new and the old value", s, z3.Implies(okf, z3.Or(*[
                    z3.And(to_term(d.val(alf)) == sv.t, to_term(p[0]) == objt(ty), to_term(p[1]) == objt(ty)) for sv, p, kw in g["sigs"] if len(p) == 2 and not kw] or [z3.BoolVal(False)])))
                U.oblige(f"{what}: it makes field signal instances (their connect_setattr takes the new value only)", s, z3.Implies(okf, z3.Or(*[
                    z3.And(to_term(d.val(alf)) == o.t, z3.BoolVal(nm == "_signal_instance_class" and getattr(c, "name", None) == "_DataclassFieldSignalInstance")) for o, nm, c in g["classed"]] or [z3.BoolVal(False)])))
            U.oblige(f"{what}: two fields do not share a signal", s, z3.Implies(z3.And(ok_a, ok_b), to_term(d.val(al[0])) != to_term(d.val(al[1]))))
            for nm, alf in (("a", al[0]), ("b", al[1])):
                k = to_term(nm)
                U.oblige(f"{what}: a field is found under its alias", s, z3.If(aa.has(k), to_term(aa.val(k)) == alf, alf == k))
            U.oblige(f"{what}: the aliases given are kept, no others are made up", s, z3.Implies(aa.has(x), z3.Or(x == ta_, x == tb_, *([x == to_term("c")] if how == "mapping" else []))))
            if how == "mapping":
                U.oblige(f"{what}: aliases of names that are no fields are kept", s, z3.And(aa.has(to_term("c")), to_term(aa.val(to_term("c"))) == mb.t))
            e2 = lib.dict_to_s(E, s.d(eqr))
            U.oblige(f"{what}: each field is compared by the operator given for it, or else the class's own, or else the one for its type; others stay", s, z3.And(
                e2.has(ta_), to_term(e2.val(ta_)) == (opa.t if ops_given else PICK(TYA.t)), e2.has(tb_), to_term(e2.val(tb_)) == oldb.t, e2.has(to_term("z")), to_term(e2.val(to_term("z"))) == oldb.t,
                z3.Implies(e2.has(x), z3.Or(x == ta_, x == tb_, x == to_term("z")))))
            U.frame(what, st, s, {("d", eqr.oid), ("g", "sigs"), ("g", "classed"), ("g", "made")})
        U.must_fail("satisfiable", st, z3.BoolVal(False))

DU = "psygnal._dataclass_utils"


def field_seq(E, st, tag, name="fields", n=None):
    if n is not None:
        F = [fresh_v(name) for _ in range(n)]
        return st.assume(z3.Distinct(*F)), z3.IntVal(n), lambda k: F[is_lit(z3.simplify(zlen(k)))], Seq.of([SV(x, tag) for x in F])
    n = fresh_int("n_" + name)
    F = fresh_fun(name, I, V)
    return st.assume(n >= 0), n, F, Seq(n, lambda k: SV(F(zlen(k)), tag))


def u_iter_fields(U, small):
    E = U.E
    q = f"{DU}:iter_fields"
    NAME, TYPE = fresh_fun("name_of", V, V), fresh_fun("type_of", V, V)
    for what in ("dataclass", "pydantic", "attrs", "msgspec", "other"):
        for excl in (True, False):
            st = St()
            cls = SV(fresh_v("cls"), "type")
            st, n, F, seq = field_seq(E, st, "field" if what != "msgspec" else "str", n=2 if small else None)
            pairs = Seq.of([(SV(NAME(F(k)), "str"), SV(F(k), "field")) for k in (0, 1)]) if small else Seq(n, lambda k: (SV(NAME(F(zlen(k))), "str"), SV(F(zlen(k)), "field")))
            KIND, FROZEN = fresh_fun("kind_of_field", V, V), fresh_fun("frozen_field", V, B)
            FIELD = to_term(Ext("dataclasses._FIELD"))

            def attrs_of(E, st, v, name, ctx, missing, what=what, seq=seq, n=n, F=F):
                own = {"dataclass": "__dataclass_fields__", "pydantic": "model_fields", "attrs": "__attrs_attrs__", "msgspec": "__struct_fields__"}.get(what)
                if name == own:
                    if what in ("dataclass", "pydantic"):
                        m = SV(fresh_v("mapping_of_fields"), "fieldmap")
                        return [(st.assume(lib.is_object(m.t)), m)]
                    return [(st, seq)]
                if name == "__annotations__" and what == "msgspec":
                    return [(st, SV(fresh_v("annotations"), "annotations"))]
                if name in ("__dataclass_fields__", "__attrs_attrs__", "__struct_fields__", "model_fields", "__fields__"):
                    return missing(st)
                raise Unsupported(f"attribute {name} of a class")
            absent = {"__dataclass_fields__": what != "dataclass", "__attrs_attrs__": what != "attrs", "model_fields": what != "pydantic", "__struct_fields__": what != "msgspec"}

            def reader(nm):
                def read(E, st, v, ctx):
                    E.obligation(f"{what}: the fields of the class are read", st, z3.BoolVal(v == cls))
                    return attrs_of(E, st, v, nm, ctx, None)
                return read
            for nm, gone in absent.items():
                E.schema.pop(("type", nm), None)
                E.schema[("hasattr", nm)] = lambda E, st, o, ctx, gone=gone: [(st, not gone)]
                if not gone:
                    E.schema[("type", nm)] = reader(nm)
            E.schema[("type", "__annotations__")] = reader("__annotations__")
            E.schema[("fieldmap", "values")] = lambda E, st, v, ctx: [(st, Partial(Ext("fieldmap.values"), [], {}))]
            E.schema[("fieldmap", "items")] = lambda E, st, v, ctx: [(st, Partial(Ext("fieldmap.items"), [], {}))]
            E.stubs["fieldmap.values"] = lambda E, st, ca, ctx, fn, seq=seq: [(st, seq)]
            E.stubs["fieldmap.items"] = lambda E, st, ca, ctx, fn, pairs=pairs: [(st, pairs)]
            E.stubs["annotations.get"] = lambda E, st, ca, ctx, fn: [(st, SV(TYPE(to_term(ca.pos[0])))) if len(ca.pos) == 1 or ca.pos[1] is None else (st, SV(fresh_v("other")))]
            E.schema[("annotations", "get")] = lambda E, st, v, ctx: [(st, Partial(Ext("annotations.get"), [], {}))]
            E.schema[("field", "name")] = lambda E, st, v, ctx: [(st, SV(NAME(v.t), "str"))]
            E.schema[("field", "type")] = lambda E, st, v, ctx: [(st, SV(TYPE(v.t)))]
            E.schema[("field", "annotation")] = E.schema[("field", "type")]
            E.schema[("field", "_field_type")] = lambda E, st, v, ctx: [(st, SV(KIND(v.t), "atom"))]
            E.schema[("field", "frozen")] = lambda E, st, v, ctx: [(st, SBool(FROZEN(v.t)))]
            E.stubs[f"{DU}:is_pydantic_model"] = lambda E, st, ca, ctx, fn, what=what: [(st, what == "pydantic")]
            E.stubs[f"{DU}:is_msgspec_struct"] = lambda E, st, ca, ctx, fn, what=what: [(st, what == "msgspec")]
            E.assumptions.add("a class is of at most one kind: dataclass, pydantic (2) model, attrs class, msgspec struct")
            LY, Y = fresh_fun("n_found", I, I), fresh_fun("found", I, I)
            if small or what in ("attrs", "msgspec"):
                LY = Y = z3.simplify
            name_at = lambda k: NAME(F(k)) if what != "msgspec" else F(k)
            hit = {"dataclass": lambda m: KIND(F(m)) == FIELD, "pydantic": lambda m: z3.Or(z3.Not(FROZEN(F(m))), z3.BoolVal(not excl))}.get(what, lambda m: z3.BoolVal(True))
            facts = lambda m: [] if LY is Y else [LY(zlen(m) + 1) == LY(zlen(m)) + z3.If(hit(zlen(m)), 1, 0), z3.Implies(hit(zlen(m)), Y(LY(zlen(m))) == zlen(m))]
            st = st.assume(LY(z3.IntVal(0)) == 0)
            out = lambda j: (SV(name_at(Y(j)), "str"), SV(TYPE(F(Y(j)))))
            j = z3.Int("j_if")
            E.loop_specs["*"] = lambda L: {"cands": [lambda m: Seq(LY(zlen(m)), lambda j: out(zlen(j)))], "facts": facts, "inv": lambda s, m: [] if LY is Y else [
                ("count", z3.And(LY(zlen(m)) >= 0, LY(zlen(m)) <= zlen(m))), ("each is a settable field", fa([j], z3.Implies(z3.And(0 <= j, j < LY(zlen(m))), z3.And(Y(j) >= 0, Y(j) < zlen(m), hit(Y(j)), LY(Y(j)) == j)), Y(j))),
                ("each settable field is there", fa([j], z3.Implies(z3.And(0 <= j, j < zlen(m), hit(j)), z3.And(LY(j) >= 0, LY(j) < LY(zlen(m)), Y(LY(j)) == j)), LY(j)))]}
            w = f"{what}{'' if excl else ', frozen ones too'}"
            for kind, s, v in U.run(st, q, [cls] if excl else [cls, False]):
                U.oblige(f"{w}: listing the fields does not fail", s, z3.BoolVal(kind == "ret" and isinstance(v, (Seq, tuple))))
                if kind != "ret" or not isinstance(v, (Seq, tuple)):
                    continue
                v = v if isinstance(v, Seq) else Seq.of(v)
                if what == "other":
                    U.oblige(f"{w}: no fields", s, v.zn() == 0)
                    continue
                i = fresh_int("i")
                if small:
                    items = list(v.items) if v.items is not None else None
                    if items is None:
                        raise Unsupported("what is listed is not explicit")
                    h0, h1 = hit(0), hit(1)
                    is_ = lambda x, k: z3.And(to_term(x[0]) == name_at(k), to_term(x[1]) == TYPE(F(k)))
                    U.oblige(f"{w}: of two fields, exactly the settable ones are listed, in order, with name and type", s,
                             z3.And(z3.Not(h0), z3.Not(h1)) if not items else z3.Or(z3.And(h0, z3.Not(h1), is_(items[0], 0)), z3.And(h1, z3.Not(h0), is_(items[0], 1))) if len(items) == 1
                             else z3.And(h0, h1, is_(items[0], 0), is_(items[1], 1)) if len(items) == 2 else z3.BoolVal(False))
                    continue
                U.oblige(f"{w}: each settable field is listed once", s, z3.And(v.zn() == LY(n), z3.Implies(z3.And(0 <= i, i < n, hit(i)), z3.And(LY(i) < LY(n), Y(LY(i)) == i))))
                if v.items == [] or v.items == ():
                    continue
                if not isinstance(v.at(i), tuple):
                    raise Unsupported('what is listed has no closed form')
                a, b = v.at(i)
                U.oblige(f"{w}: and nothing else, with its name and type", s, z3.Implies(z3.And(0 <= i, i < v.zn()), z3.And(Y(i) >= 0, Y(i) < n, hit(Y(i)), to_term(a) == name_at(Y(i)), to_term(b) == TYPE(F(Y(i))))))
                U.frame(w, st, s, ())
            U.must_fail("satisfiable", st.assume(n > 1), z3.BoolVal(False))


for _small, _text in ((False, ""), (True, " (two fields, decided exactly)")):
    unit("C18", f"the fields of a class{_text}: for dataclasses, pydantic models, attrs classes and msgspec structs, each settable field once, in order, with its type; none for other classes",
         ["iter_fields"], timeout=120, bound="two fields" if _small else None)(lambda U, small=_small: u_iter_fields(U, small))


@unit("C18", "the operator for a type: by identity for dask, by array comparison for types with arrays, else ==", ["_pick_equality_operator"])
def u_pick_operator(U):
    E = U.E
    st = St()
    ty = SV(fresh_v("type"), "type?")
    arreq, np = SV(fresh_v("array_equal"), "eqop"), SV(fresh_v("numpy"), "numpy")
    hasnp, hasarr, hasmod = fresh_bool("has_numpy"), fresh_bool("has_array"), fresh_bool("has_module")
    mod = SV(fresh_v("module"), "str")
    st = st.assume(lib.is_object(np.t), lib.is_object(arreq.t), V.is_vstr(mod.t))
    E.stubs["sys.modules.get"] = lambda E, st, ca, ctx, fn: [(s, np if b else None) for s, b in E.split(st, hasnp)]
    E.schema[("numpy", "array_equal")] = lambda E, st, v, ctx: [(st, arreq)]
    E.schema[("hasattr", "__array__")] = lambda E, st, o, ctx: [(s, b) for s, b in E.split(st, hasarr)]

    E.schema[("hasattr", "__module__")] = lambda E, st, o, ctx: [(s, b) for s, b in E.split(st, hasmod)]
    E.schema[("type?", "__module__")] = lambda E, st, v, ctx: [(st, mod)]
    START = z3.Function("str_startswith", V, V, z3.BoolSort())
    lib._symstr[("startswith", 1)] = START
    for kind, s, v in U.run(st, f"{GD}:_pick_equality_operator", [ty]):
        U.oblige("choosing the operator does not fail", s, z3.BoolVal(kind == "ret"))
        if kind != "ret":
            continue
        dask = z3.And(hasmod, START(mod.t, to_term("dask")))
        U.oblige("dask objects are compared by identity, arrays by array_equal, all others by ==", s,
                 to_term(v) == z3.If(dask, to_term(Ext("operator.is_")), z3.If(z3.And(hasnp, hasarr), arreq.t, to_term(Ext("operator.eq")))))
        U.frame("_pick_equality_operator", st, s, ())
    U.must_fail("satisfiable", st, z3.BoolVal(False))


@unit("C18", "a descriptor keeps the settings given and starts without groups; unusable group classes are refused; it is bound to its name",
      ["SignalGroupDescriptor.__init__", "SignalGroupDescriptor.__set_name__"])
def u_descriptor_init(U):
    E = U.E
    D = E.loader.cls(GD, "SignalGroupDescriptor")
    BASE = E.loader.cls(GRP, "SignalGroup")
    ISCLS, SUB, CALLABLE = fresh_fun("is_class", V, B), fresh_fun("is_group_class", V, B), fresh_fun("is_callable", V, B)
    E.schema[("isinstance", "builtins.type")] = lambda E, st, v: ISCLS(v.t) if isinstance(v, SV) and v.cls == "groupcls?" else None

    def issub(E, st, ca, ctx, fn):
        a = ca.pos[0]
        if isinstance(a, lib.ClassInfo):
            return [(st, a is BASE)]
        return [(st, SBool(SUB(to_term(a))))]
    E.stubs["builtins.issubclass"] = issub
    E.stubs["builtins.callable"] = lambda E, st, ca, ctx, fn: [(st, SBool(CALLABLE(to_term(ca.pos[0]))))]
    for given, collect, ops in itertools.product((False, True), (False, True), (False, True)):
        st = St()
        st, op = lib.fresh_dict(st, "ops", "eqop", "str")
        st, opr = E.alloc(st, Ext("builtins.dict"), data=op, kind="dict")
        cls = SV(fresh_v("group_class"), "groupcls?") if given else None
        al = SV(fresh_v("aliases"))
        w, c, p = (SBool(fresh_bool(x)) for x in ("warn", "cache", "patch"))
        if given:
            st = st.assume(lib.is_object(cls.t), lib.truthy(cls.t), cls.t != to_term(BASE))
        ctx = U.ctx(GD)
        what = f"descriptor ({'group class' if given else 'no group class'}, {'fields' if collect else 'no fields'}, {'operators' if ops else 'no operators'})"
        kw = dict(equality_operators=opr if ops else None, warn_on_no_fields=w, cache_on_instance=c, patch_setattr=p, signal_group_class=cls, collect_fields=collect, signal_aliases=al)
        okcls = z3.And(ISCLS(cls.t), SUB(cls.t)) if given else z3.BoolVal(True)
        usable = z3.BoolVal(True) if collect else z3.And(z3.BoolVal(given), z3.Not(CALLABLE(al.t)))
        outs = E.instantiate(st, D, CallArgs([], None, kw), ctx)
        for s, e in ctx.sink:
            U.oblige(f"{what}: refused only if the group class is none (TypeError), or fields are not collected and there is no group class of one's own, or aliases are computed (ValueError)", s,
                     z3.Or(z3.And(z3.BoolVal(U.exc_is(s, e, "TypeError")), z3.Not(okcls)), z3.And(z3.BoolVal(U.exc_is(s, e, "ValueError")), z3.Not(usable))))
        for s, d in outs:
            o = s.obj(d).fields
            U.oblige(f"{what}: accepted only if it can be used", s, z3.And(okcls, usable))
            U.oblige(f"{what}: the settings are those given", s, z3.And(*[lib.same(E, s, o[f], v) for f, v in (("_warn_on_no_fields", w), ("_cache_on_instance", c), ("_patch_setattr", p), ("_collect_fields", collect), ("_signal_aliases", al))],
                     lib.same(E, s, o["_signal_group_class"], cls if given else BASE), lib.same(E, s, o["_name"], None)))
            m, g = s.d(o["_instance_map"]), s.d(o["_signal_groups"])
            U.oblige(f"{what}: no groups yet, in maps of its own", s, z3.And(lib.dict_to_s(E, m).n == 0, lib.dict_to_s(E, g).n == 0, z3.BoolVal(o["_instance_map"].oid not in st.heap and o["_signal_groups"].oid not in st.heap and o["_instance_map"] != o["_signal_groups"])))
            eq = o["_eqop"]
            if eq is None:
                U.oblige(f"{what}: no operators only if none are given", s, z3.BoolVal(not ops) if not ops else op.n == 0)
            else:
                sq = eq if isinstance(eq, Seq) else Seq.of(eq) if isinstance(eq, tuple) else None
                if sq is None:
                    raise Unsupported("operators kept in another form")
                i = fresh_int("i")
                e = sq.at(i)
                U.oblige(f"{what}: the operators given are kept", s, z3.And(z3.BoolVal(ops), sq.zn() == op.n, z3.Implies(z3.And(0 <= i, i < op.n), z3.And(to_term(e[0]) == to_term(op.keys.at(i)), to_term(e[1]) == to_term(op.val(to_term(op.keys.at(i))))))))
            U.frame(what, st, s, ())
            # binding it to its name
            owner, name = SV(fresh_v("owner"), "type"), SV(fresh_v("name"), "str")

            def setat(E, st, o, nm, v, ctx):
                s2, e = E.new_exc(st, exc_cls(E, "builtins.AttributeError"), ())
                ctx.sink.append((s2, e))
                return [(st.g(marked=st.ghost.get("marked", ()) + ((o, nm, v),)), None)]
            E.schema[("setattr", "dynamic")] = setat
            E.schema[("type", "=")] = lambda E, st, o, nm, v, ctx: [x[0] for x in setat(E, st, o, nm, v, ctx)]
            for kind, s2, r in U.run(s.g(marked=()), f"{GD}:SignalGroupDescriptor.__set_name__", [d, owner, name]):
                U.oblige("binding to the name does not fail", s2, z3.BoolVal(kind == "ret"))
                U.oblige("the name is kept", s2, lib.same(E, s2, s2.obj(d).fields["_name"], name))
                mk = s2.ghost["marked"]
                U.oblige("the class is marked as evented under this name, if it can be", s2, z3.And(z3.BoolVal(len(mk) <= 1), *[z3.And(lib.same(E, s2, a, owner), lib.same(E, s2, b, "_psygnal_group_"), lib.same(E, s2, x, name)) for a, b, x in mk]))
                U.frame("__set_name__", s, s2, {("f", d.oid, "_name"), ("g", "marked")})
        U.oblige(f"{what}: usable settings are accepted", st, z3.BoolVal(bool(outs)) if not (not collect and not given) else z3.BoolVal(True))


@unit("C18", "the evented decorator: the class itself, with a descriptor of the settings given bound under the name given; classes with reserved fields are refused", ["evented"])
def u_evented(U):
    E = U.E
    DEC = "psygnal._evented_decorator"
    for direct, ann in itertools.product((False, True), (0, 1, 2)):
        st = St().g(made=(), named=(), stored=())
        cls, ns = SV(fresh_v("cls"), "type"), SV(fresh_v("namespace"), "str")
        st = st.assume(lib.is_object(cls.t), V.is_vstr(ns.t))
        ISCLS = fresh_bool("is_class")
        E.schema[("isinstance", "builtins.type")] = lambda E, st, v: ISCLS if isinstance(v, SV) and v.cls == "type" else None
        n0 = [SV(fresh_v("annotated"), "str") for _ in range(ann)]
        START = z3.Function("str_startswith", V, V, z3.BoolSort())
        lib._symstr[("startswith", 1)] = START
        names = Seq.of(n0)
        hasann = fresh_bool("has_annotations")

        E.schema[("hasattr", "__annotations__")] = lambda E, st, o, ctx: [(s, b) for s, b in E.split(st, hasann)]
        E.schema[("type", "__annotations__")] = lambda E, st, v, ctx: [(st, names)]
        D = f"{GD}:SignalGroupDescriptor"

        def mk(E, st, ca, ctx, fn):
            r = SV(fresh_v("descriptor"), "descr")
            return [(st.g(made=st.ghost["made"] + ((ca, r),)).assume(lib.is_object(r.t)), r)]
        E.stubs[D] = mk
        E.schema[("descr", "__set_name__")] = lambda E, st, v, ctx: [(st, Partial(Ext("descr.set_name"), [v], {}))]
        E.stubs["descr.set_name"] = lambda E, st, ca, ctx, fn: [(st.g(named=st.ghost["named"] + (tuple(ca.pos),)), None)]
        E.schema[("setattr", "dynamic")] = lambda E, st, o, nm, v, ctx: [(st.g(stored=st.ghost["stored"] + ((o, nm, v),)), None)]
        kw = {k: SV(fresh_v(k)) for k in ("equality_operators", "warn_on_no_fields", "cache_on_instance", "signal_aliases")}
        reserved = z3.And(hasann, z3.Or(*[START(x.t, to_term("_psygnal")) for x in n0])) if n0 else z3.BoolVal(False)
        what = f"@evented ({'applied' if direct else 'with arguments'}, {ann} annotations)"
        outs = []
        for kind, s, v in U.run(st, f"{DEC}:evented", [cls] if direct else [], {"events_namespace": ns, **kw}):
            if direct or kind != "ret":
                outs.append((kind, s, v))
                continue
            ctx = U.ctx(DEC)
            outs += [("ret", s2, r) for s2, r in E.call(s, v, CallArgs([cls]), ctx)]
            outs += [("raise", s2, e) for s2, e in ctx.sink]
        for kind, s, v in outs:
            g = s.ghost
            if kind == "raise":
                U.oblige(f"{what}: refused with TypeError only for no class, or reserved field names", s, z3.And(z3.BoolVal(U.exc_is(s, v, "TypeError")), z3.Or(z3.Not(ISCLS), reserved)))
                U.oblige(f"{what}: a refused class is not changed", s, z3.BoolVal(not g["named"] and not g["stored"]))
                continue
            U.oblige(f"{what}: accepted only for classes without reserved field names", s, z3.And(ISCLS, z3.Not(reserved)))
            U.oblige(f"{what}: the class given is returned", s, lib.same(E, s, v, cls))
            ok = len(g["made"]) == 1 and len(g["named"]) == 1 and len(g["stored"]) == 1
            U.oblige(f"{what}: one descriptor is made, named and stored", s, z3.BoolVal(ok))
            if not ok:
                continue
            ca, d = g["made"][0]
            U.oblige(f"{what}: it has the settings given", s, z3.And(z3.BoolVal(not ca.pos and set(ca.kw) >= set(kw)), *[lib.same(E, s, ca.kw[k], x) for k, x in kw.items() if k in ca.kw]))
            a = g["named"][0]
            U.oblige(f"{what}: it is bound to the class and name", s, z3.And(z3.BoolVal(len(a) == 3), lib.same(E, s, a[0], d), lib.same(E, s, a[1], cls), lib.same(E, s, a[2], ns)))
            o, nm, x = g["stored"][0]
            U.oblige(f"{what}: and is the class's attribute of that name", s, z3.And(lib.same(E, s, o, cls), lib.same(E, s, nm, ns), lib.same(E, s, x, d)))
        U.must_fail("satisfiable", st, z3.BoolVal(False))


@unit(["C18", "C02"], "binding an attribute to a field's signal: stores the new value (one argument) unless asked otherwise; everything else as given",
      ["_DataclassFieldSignalInstance.connect_setattr"])
def u_field_setattr(U):
    E = U.E
    base_schema(E)
    cls = E.loader.cls(GD, "_DataclassFieldSignalInstance")
    obj, attr, res = SV(fresh_v("obj"), "object"), SV(fresh_v("attr"), "str"), SV(fresh_v("cb"), "WeakCallback")
    inst = SV(fresh_v("sig"), cls)
    ore, prio, mx = SV(fresh_v("on_ref_error"), "str"), SInt(fresh_int("priority")), SV(fresh_v("maxargs"))
    for given in ("none", "max", "maxpos", "all"):
        kw = {"max": {"maxargs": mx}, "all": {"maxargs": mx, "on_ref_error": ore, "priority": prio}}.get(given, {})
        pos = [inst, obj, attr] + ([mx] if given == "maxpos" else [])
        st = St().g(calls=())

        def base(E, st, ca, ctx, fn):
            names = ["self", "obj", "attr", "maxargs"]
            a = dict(zip(names, ca.pos)) | ca.kw
            s, e = E.new_exc(st.g(calls=st.ghost["calls"] + (a,), failed=True), exc_cls(E, "TypeError"), ())
            ctx.sink.append((s, e))
            return [(st.g(calls=st.ghost["calls"] + (a,)), res)]
        E.stubs[f"{SIG}:SignalInstance.connect_setattr"] = base
        for kind, s, v in U.run(st, f"{GD}:_DataclassFieldSignalInstance.connect_setattr", pos, kw):
            U.frame("connect_setattr", st, s, {("g", "calls"), ("g", "failed")})
            c = s.ghost["calls"]
            U.oblige(f"connected once, as a signal does [{given}]", s, z3.BoolVal(len(c) == 1))
            if len(c) != 1:
                continue
            a = c[0]
            U.oblige(f"to the attribute of the object given [{given}]", s, z3.And(lib.same(E, s, a["obj"], obj), lib.same(E, s, a["attr"], attr), lib.same(E, s, a["self"], inst)))
            U.oblige(f"one argument unless asked otherwise [{given}]", s, lib.same(E, s, a["maxargs"], 1 if given in ("none",) else mx) if "maxargs" in a else z3.BoolVal(False))
            U.oblige(f"with the options given [{given}]", s, z3.And(lib.same(E, s, a.get("on_ref_error", "warn"), ore if given == "all" else "warn"),
                                                                     lib.same(E, s, a.get("priority", 0), prio if given == "all" else 0)))
            U.oblige(f"its result is returned, its error passed on [{given}]", s, z3.BoolVal(kind == "raise") if s.ghost.get("failed") else lib.same(E, s, v, res) if kind == "ret" else z3.BoolVal(False))


@unit("C18", "a class (or its instance) is a pydantic model or msgspec struct exactly if that library is loaded and it derives from its base class",
      ["is_pydantic_model", "is_msgspec_struct"])
def u_libs(U):
    E = U.E
    base_schema(E)
    SUB = z3.Function("issubclass_", V, V, z3.BoolSort())
    TY = z3.Function("type_of", V, V)
    E.stubs["builtins.type"] = lambda E, st, ca, ctx, f: [(st, SV(TY(to_term(ca.pos[0])), "type"))]
    E.stubs["builtins.issubclass"] = lambda E, st, ca, ctx, f: [(st, SBool(SUB(to_term(ca.pos[0]), to_term(ca.pos[1]))))]
    E.assumptions.add("type and issubclass are deterministic (no metaclass with an __instancecheck__ of its own)")
    for fn, mod, basename in (("is_pydantic_model", "pydantic", "BaseModel"), ("is_msgspec_struct", "msgspec", "Struct")):
        loaded, istype = fresh_bool("loaded"), fresh_bool("is_class")
        m, base = SV(fresh_v("module"), "libmodule"), SV(fresh_v("base"), "type")
        obj = SV(fresh_v("obj"), "object")
        st = St().assume(lib.is_object(m.t))
        E.schema[("isinstance", "builtins.type")] = lambda E, st, v: istype
        E.schema[("object", "isinstance")] = lambda E, st, v, c: SBool(istype) if c.endswith("type") else None
        E.schema[("libmodule", basename)] = lambda E, st, v, ctx: [(st, base)]

        def get(E, st, ca, ctx, f):
            E.obligation(f"{fn}: the library asked about", st, z3.BoolVal(ca.pos[0] == mod))
            dflt = ca.pos[1] if len(ca.pos) > 1 else ca.kw.get("default")
            return [(st.assume(loaded), m), (st.assume(z3.Not(loaded)), dflt)]
        E.stubs["sys.modules.get"] = get
        cls = z3.If(istype, obj.t, TY(obj.t))
        want = z3.And(loaded, SUB(cls, base.t))
        for kind, s, v in U.run(st, f"{DU}:{fn}", [obj]):
            U.oblige(f"{fn}: the answer", s, lib.same(E, s, v, SBool(want)) if kind == "ret" else z3.BoolVal(False))
            U.frame(fn, st, s, ())
        U.must_fail("satisfiable", st, z3.Not(want))


@unit("C18", "what is evented, and where its group is", ["is_evented", "get_evented_namespace"])
def u_is_evented(U):
    E = U.E
    base_schema(E)
    obj = SV(fresh_v("obj"), "object")
    mod = E.loader.module(GD)
    try:
        grp, patched = [E.global_value(St(), mod, n)[1] for n in ("PSYGNAL_GROUP_NAME", "PATCHED_BY_PSYGNAL")]
    except Exception:
        raise Unsupported("the marker attributes are named elsewhere")
    has = {a: fresh_bool("has" + a) for a in (grp, patched)}
    ns = SV(fresh_v("namespace"), "str")
    st = St().assume(V.is_vstr(ns.t))
    for a, b in has.items():
        E.schema[("hasattr", a)] = lambda E, st, v, ctx, b=b: [(st.assume(b), True), (st.assume(z3.Not(b)), False)]
    E.schema[("object", grp)] = lambda E, st, v, ctx: [(st, ns)]
    for kind, s, v in U.run(st, f"{GD}:get_evented_namespace", [obj]):
        U.oblige("the name of the attribute that holds the group, None if there is none", s,
                 to_term(v) == z3.If(has[grp], ns.t, V.none) if kind == "ret" else z3.BoolVal(False))
        U.frame("get_evented_namespace", st, s, ())
    for kind, s, v in U.run(st, f"{GD}:is_evented", [obj]):
        U.oblige("evented: has a group, or its assignments are patched", s, lib.same(E, s, v, SBool(z3.Or(*has.values()))) if kind == "ret" else z3.BoolVal(False))
        U.frame("is_evented", st, s, ())
