"""Verification units: run the real body symbolically against its contract, discharge obligations.

A unit is a Python function `u(U)`; `U.run` executes a function of /repo's current source on a
symbolic pre-state and yields every path; `U.oblige` records a proof obligation (a formula that
must follow from the path condition).  Obligations are discharged by z3, then cvc5.
"""
from __future__ import annotations

import os
import subprocess
import tempfile
import time
import traceback

import z3

from . import lib, loops
from .engine import CallArgs, Ctx, Engine, portfolio
from .front import ClassInfo, Loader
from .values import (BM, DictC, DictS, Ext, Fn, Obj, Ref, SBool, Seq, SetC, SetS, SInt, St, SV, UNBOUND,
                     Unbound, Unsupported, V, fresh_bool, fresh_fun, fresh_int, fresh_seq, fresh_v,
                     from_term, is_lit, mkbool, mkint, seq_append, seq_concat, to_term, tuple_axioms, tuple_facts,
                     zb, zi, zlen)

UNITS: list = []
CVC5 = "cvc5"


class UnitDef:
    def __init__(self, prop, name, fn, targets, timeout, bound=None):
        self.prop, self.name, self.fn, self.targets, self.timeout, self.bound = prop, name, fn, targets, timeout, bound


def unit(prop, name, targets=(), timeout=60, bound=None):
    """Register a unit for property `prop` (an id or a list of ids). A unit whose pre-states are of a limited size
    names the limit (bound): its obligations are reported apart and are not counted as proved."""
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            UNITS.append(UnitDef(p, name, fn, list(targets), timeout, bound))
        return fn
    return deco


def check_sat_core(assertions, timeout_ms):
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for a in assertions:
        s.add(a)
    t0 = time.time()
    r = s.check()
    return r, s, time.time() - t0


def run_cvc5(solver, timeout_ms):
    txt = solver.to_smt2()
    fd, path = tempfile.mkstemp(suffix=".smt2")
    t0 = time.time()
    try:
        with os.fdopen(fd, "w") as f:
            f.write("(set-logic ALL)\n" + txt)
        p = subprocess.run([CVC5, f"--tlimit={timeout_ms}", "--full-saturate-quant", path], capture_output=True,
                           text=True, timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        return (out[0] if out else "unknown"), time.time() - t0
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return "unknown", time.time() - t0
    finally:
        os.unlink(path)


class U:
    def __init__(self, ud: UnitDef, loader, tier="quick"):
        self.ud = ud
        self.loader = loader
        self.E = Engine(loader)
        self.E.obligation = self.oblige
        self.E.pending = []
        self.E.unit = self
        self.tier = tier
        self.results = []
        self.paths = 0
        self.normal_paths = 0
        self.notes = []
        self.functions = []
        self.solver_ms = 0.0
        self.names = {}

    # ------------------------------------------------------------ execution
    def ctx(self, mod=None):
        m = self.loader.module(mod or "psygnal._signal")
        return Ctx(m, (), None, [])

    def run(self, st, fn, args=(), kw=None, star=None, kwstar=None, stub=False):
        """Execute `fn` (Fn, bound method or 'mod:Class.meth') -> [(kind, st, val)]."""
        E = self.E
        if isinstance(fn, str):
            mod, q = fn.split(":")
            fn = E.fn(mod, q)
        c = self.ctx(fn.mod.name if isinstance(fn, Fn) else None)
        ca = CallArgs(list(args), star, kw, kwstar)
        f = fn
        if isinstance(f, BM) and isinstance(f.fn, Fn):
            ca = CallArgs([f.self_] + list(args), star, kw, kwstar)
            f = f.fn
        if isinstance(f, Fn):
            self.functions.append(f.qual)
            if "contextmanager" in f.deco:
                raise Unsupported("run() of a context manager: use run_with")
            r = E.call_fn(st, f, ca, c, force_inline=not stub)
        else:
            r = E.call(st, f, ca, c)
        out = [("ret", s, v) for s, v in r] + [("raise", s, e) for s, e in c.sink]
        self.paths += len(out)
        self.normal_paths += len(r)
        return out

    def run_with(self, st, cm_fn, args, body):
        """Execute `with cm_fn(*args) as v: body` ; body(st, v) -> outcomes."""
        E = self.E
        mod, q = cm_fn.split(":")
        fn = E.fn(mod, q)
        self.functions.append(fn.qual)
        c = self.ctx(fn.mod.name)
        out = []
        for s, cm in E.call_fn(st, fn, CallArgs(list(args)), c, force_inline=True):
            out += E.with_(s, cm, body, c)
        out += [("raise", s, e) for s, e in c.sink]
        self.paths += len(out)
        self.normal_paths += sum(1 for o in out if o[0] != "raise")
        return out

    # ------------------------------------------------------------ obligations
    def oblige(self, name, st, goal, kind="post"):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        self.E.pending.append((name, st, goal, kind))

    def discharge(self):
        seen = {}
        for name, st, goal, kind in self.E.pending:
            k = seen.get(name, 0) + 1
            seen[name] = k
            self.results.append(self.prove(f"{name}#{k}", st, goal, kind))
        self.E.pending = []

    def prove(self, name, st, goal, kind="post"):
        nbad = sum(1 for r in self.results if r["status"] not in ("proved",))
        mult = 3 if self.tier == "thorough" else 1
        timeouts = (2500 * mult, 4000 * mult) if nbad < 2 else (800, 0)
        t0 = time.time()
        tn = st.ghost.get("_taint")
        taint = False
        if tn:
            used = loops.syms(goal)
            for c in st.pc:
                used |= loops.syms(c)
            taint = "*" in tn or bool(used & tn)
        res = {"name": name, "kind": kind, "tainted": taint}
        g = z3.simplify(goal)
        if z3.is_true(g):
            res.update(status="proved", solver="z3 (simplifier)", ms=int((time.time() - t0) * 1000))
            return res
        syms = loops.syms(g)
        for c in st.pc:
            loops.syms(c, syms)
        ax = tuple_facts(list(st.pc) + [g])
        if ax is None:
            ax = tuple_axioms(syms)
        r, s = portfolio(list(st.pc) + ax + [z3.Not(g)], timeouts[0])
        model = None
        if r == z3.unsat:
            status, solver = "proved", "z3"
        else:
            if r == z3.sat:
                model = s.model()
                status, solver = "refuted", "z3"
            else:
                out = run_cvc5(s, timeouts[1])[0] if timeouts[1] else "unknown"
                if out == "unsat":
                    status, solver = "proved", "cvc5"
                elif out == "sat":
                    status, solver = "refuted", "cvc5"
                else:
                    status, solver = "unknown", "z3+cvc5"
        res.update(status=status, solver=solver, ms=int((time.time() - t0) * 1000))
        if status != "proved":
            res["goal"] = str(g)[:1500]
            res["path"] = [str(c)[:300] for c in st.pc][-25:]
            if model is not None:
                res["model"] = str(model)[:2000]
        return res

    def must_fail(self, name, st, goal):
        """Vacuity guard: this obligation must NOT be provable."""
        t0 = time.time()
        r, _, _ = check_sat_core(list(st.pc) + [z3.Not(z3.BoolVal(goal) if isinstance(goal, bool) else goal)], 700)
        ok = r != z3.unsat
        self.results.append({"name": "guard: " + name, "kind": "guard", "tainted": False, "solver": "z3",
                             "ms": int((time.time() - t0) * 1000),
                             "status": "proved" if ok else "vacuous"})

    # ------------------------------------------------------------ convenience
    def same(self, st, a, b, st2=None):
        r = lib.same(self.E, st, a, b, st2)
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def frame(self, name, pre, post, allow=()):
        """Nothing outside `allow` changed between two states.

        allow: set of ('f', oid, field) / ('d', oid) / ('g', key) / ('s', attr) or ('f', oid) prefixes."""
        for loc in sorted(loops.changed_locs(pre, post), key=str):
            if loc in allow or loc[:2] in allow or loc[0] in allow:
                continue
            if loc[0] == "g" and str(loc[1]).startswith("_"):
                continue
            if loc[0] in ("f", "d"):
                o = pre.heap.get(loc[1])
                if o is not None and o.kind == "frame":
                    continue
            a, b = loops.get_loc(pre, loc), loops.get_loc(post, loc)
            if loc[0] == "f" and isinstance(a, Unbound) != isinstance(b, Unbound):
                self.oblige(f"{name}: frame {loc_name(pre, loc)}", post, False, "frame")
                continue
            self.oblige(f"{name}: frame {loc_name(pre, loc)}", post, loops.same_data(self.E, post, a, b), "frame")

    def exc_is(self, st, e, clsname):
        return self.E.exc_isa(st, e, exc_cls(self.E, clsname))


def exc_cls(E, name):
    if ":" in name:
        m, c = name.split(":")
        return E.loader.cls(m, c)
    return Ext(name if "." in name else "builtins." + name)


def loc_name(st, loc):
    if loc[0] in ("f", "d"):
        o = st.heap.get(loc[1])
        c = o.cls if o is not None else None
        cn = c.name if hasattr(c, "name") else str(c)
        return f"{cn}.{loc[2]}" if loc[0] == "f" else f"{cn}[contents]"
    return f"{loc[0]}:{loc[1]}"


def run_unit(ud, src=None, tier="quick"):
    """-> result dict"""
    loader = Loader(src) if src else Loader()
    u = U(ud, loader, tier)
    t0 = time.time()
    u.E.deadline = t0 + ud.timeout * (3 if tier == "thorough" else 1)
    res = {"unit": ud.name, "targets": ud.targets, "bound": ud.bound, "status": "undecided", "reason": "", "obligations": []}
    try:
        ud.fn(u)
        u.discharge()
        res["obligations"] = u.results
        bad = [r for r in u.results if r["status"] == "refuted" and not r["tainted"]]
        unk = [r for r in u.results if r["status"] in ("unknown",) or (r["status"] == "refuted" and r["tainted"])]
        vac = [r for r in u.results if r["status"] == "vacuous"]
        real = [r for r in u.results if r["kind"] != "guard"]
        if vac or not real:
            res["reason"] = "vacuous: " + (vac[0]["name"] if vac else "no obligations")
        elif bad:
            res["status"] = "refuted"
            res["reason"] = bad[0]["name"]
        elif unk:
            res["reason"] = f"{unk[0]['name']} is {unk[0]['status']}" + (" (tainted)" if unk[0]["tainted"] else "")
        else:
            res["status"] = "proved"
    except Unsupported as e:
        res["reason"] = f"outside the verifier's reach: {e}"
        res["obligations"] = u.results
    except RecursionError:
        res["reason"] = "verifier recursion limit"
    except Exception as e:  # a crash of the verifier is never a verdict about the code
        res["reason"] = f"verifier error: {type(e).__name__}: {e}"
        res["traceback"] = traceback.format_exc()[-3000:]
    res["ms"] = int((time.time() - t0) * 1000)
    res["functions"] = sorted(set(u.functions))
    res["inlined"] = sorted(u.E.inlined - set(u.functions))
    res["stubbed"] = sorted(u.E.stubbed)
    res["assumptions"] = sorted(u.E.assumptions)
    res["paths"] = u.paths
    res["feasibility_queries"] = u.E.nfeas
    res["loops"] = u.E.loop_log
    res["solver_ms"] = int(u.E.solver_time * 1000) + sum(r.get("ms", 0) for r in u.results)
    return res
