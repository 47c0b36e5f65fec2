"""Obligation engine: path exploration by re-execution of the real code on symbolic values,
and discharge of the generated obligations.

Back ends: "normal-form" (exact polynomial identity over the atoms), "z3" (order / boolean
obligations; first over the linear abstraction of the monomials, then non-linear)."""
import hashlib
import itertools
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback
from fractions import Fraction

import mpmath
import numpy as _np
import z3

from . import sym
from .sym import S, SBool, ATOMS, Unsupported, TooBig, conj, disj, neg, rel, coerce, is_zero_poly, NumEnv

REAL_EXC = (TypeError, AttributeError, NameError, KeyError, IndexError, ValueError, NotImplementedError,
            ZeroDivisionError, RuntimeError, AssertionError, RecursionError, OverflowError, ImportError, OSError)


class Infeasible(BaseException):
    """the path condition became contradictory"""


class Stop(BaseException):
    pass


# ------------------------------------------------------------------ z3 translation
class Z:
    def __init__(self, linear):
        self.linear = linear
        self.vars = {}
        self.side = []
        self.done = set()
        self.monos = {}
        self.bools = {}

    def q(self, c):
        c = Fraction(c)
        return z3.RealVal(f"{c.numerator}/{c.denominator}")

    def atom(self, i):
        v = self.vars.get(i)
        if v is None:
            v = z3.Real(f"a{i}")
            self.vars[i] = v
        if i not in self.done:
            self.done.add(i)
            self.define(ATOMS[i], v)
        return v

    def define(self, a, v):
        k = a.kind
        if a.pos:
            self.side.append(v > 0)
        elif a.nonneg:
            self.side.append(v >= 0)
        if k == "pi":
            self.side.append(v > self.q("3.14159265358979"))
            self.side.append(v < self.q("3.14159265358980"))
        elif k == "den":
            self.side.append(v == self.poly(a.args))
            self.side.append(v != 0)
        elif k == "sqrt":
            p = self.poly(a.args)
            self.side.append(v >= 0)
            self.side.append(z3.Implies(p == 0, v == 0))
            self.side.append(z3.Implies(p > 0, v > 0))
            if not self.linear:
                self.side.append(v * v == p)
        elif k == "abs":
            p = self.poly(a.args)
            self.side.append(z3.Or(z3.And(p >= 0, v == p), z3.And(p <= 0, v == -p)))
        elif k in ("sin", "cos"):
            self.side += [v <= 1, v >= -1]
            if not self.linear:
                other = sym.ssin(a.args[0]) if k == "cos" else sym.scos(a.args[0])
                o = other.single_atom()
                if o is not None:
                    w = self.vars.get(o.id)
                    if w is None:
                        w = z3.Real(f"a{o.id}")
                        self.vars[o.id] = w
                        self.done.add(o.id)
                    self.side.append(v * v + w * w == 1)
        elif k == "max":
            xs = [self.s(x) for x in a.args]
            self.side.append(z3.And(*[v >= x for x in xs]))
            self.side.append(z3.Or(*[v == x for x in xs]))
        elif k == "min":
            xs = [self.s(x) for x in a.args]
            self.side.append(z3.And(*[v <= x for x in xs]))
            self.side.append(z3.Or(*[v == x for x in xs]))
        elif k == "ind":
            b = self.b(a.args[0])
            self.side.append(z3.If(b, v == 1, v == 0))
        elif k == "fn":
            if a.args[0] == "tanh":
                self.side += [v < 1, v > -1]
                x = self.s(a.args[1][0])
                self.side += [z3.Implies(x > 0, z3.And(v > 0, v <= x)), z3.Implies(x == 0, v == 0)]

    def mono(self, m):
        if not m:
            return self.q(1)
        if self.linear:
            v = self.monos.get(m)
            if v is None:
                if len(m) == 1 and m[0][1] == 1:
                    v = self.atom(m[0][0])
                else:
                    v = z3.Real("m" + "_".join(f"{i}^{e}" for i, e in m).replace("-", "n"))
                    pos = all(ATOMS[i].pos or (ATOMS[i].nonneg and e < 0) for i, e in m)
                    nn = all(ATOMS[i].nonneg or e % 2 == 0 for i, e in m)
                    if pos:
                        self.side.append(v > 0)
                    elif nn:
                        self.side.append(v >= 0)
                self.monos[m] = v
            return v
        r = None
        for i, e in m:
            v = self.atom(i)
            t = v
            if e < 0:
                w = z3.Real(f"i{i}")
                if ("inv", i) not in self.done:
                    self.done.add(("inv", i))
                    self.side.append(w * v == 1)
                t, e = w, -e
            for _ in range(e):
                r = t if r is None else r * t
        return r

    def poly(self, p):
        ts = [self.q(c) * self.mono(m) for m, c in p.items()]
        if not ts:
            return self.q(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def s(self, x):
        return self.poly(coerce(x).p)

    def b(self, x):
        if isinstance(x, (bool, _np.bool_)):
            return z3.BoolVal(bool(x))
        if x.op == "rel":
            op, d = x.args
            t = self.poly(d.p)
            return {"lt": t < 0, "le": t <= 0, "eq": t == 0}[op]
        if x.op == "not":
            return z3.Not(self.b(x.args[0]))
        if x.op == "and":
            return z3.And(*[self.b(y) for y in x.args])
        if x.op == "or":
            return z3.Or(*[self.b(y) for y in x.args])
        if x.op == "var":
            n = repr(x.args[0])
            if n not in self.bools:
                self.bools[n] = z3.Bool("b" + str(len(self.bools)) + "_" + n)
            return self.bools[n]
        raise Unsupported("z3 of " + x.op)


class Frame:
    __slots__ = ("trace", "pos", "pending", "pc", "label")

    def __init__(self, trace=(), label="path"):
        self.trace = list(trace)
        self.pos = 0
        self.pending = []
        self.pc = []
        self.label = label


class Obligation:
    __slots__ = ("name", "status", "backend", "time", "case", "detail", "path", "fn", "known", "abstract", "failed", "values", "numeric", "order", "feasible")

    def __init__(self, name, status, backend="", t=0.0, case=None, detail="", path="", fn=""):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.case, self.detail, self.path, self.fn = case, detail, path, fn
        self.known, self.abstract, self.failed, self.values, self.numeric, self.feasible = "", False, False, None, True, True
        self.order = -1


class Engine:
    def __init__(self, seed=1, tier="quick", budget=None):
        self.tier = tier
        self.rng = random.Random(seed)
        self.seed = seed
        self.obls = []
        self.notes = []
        self.assumptions = []
        self.functions = set()
        self.frames = []
        self.solver_time = 0.0
        self.calls = 0
        self.paths = 0
        self.covered = 0
        self.uncovered = []
        self.max_paths = 400
        # (milliseconds, z3 resource units): the units decide (the same on every machine and under any load), the time is the backstop
        self.z3_ms = (12000, 5000000) if tier == "quick" else (40000, 30000000)
        self.feas_ms = (3000, 800000) if tier == "quick" else (10000, 4000000)
        self.model_ms = (4000, 5000000) if tier == "quick" else (20000, 30000000)
        self.fcache = {}
        self.case_of = None
        self.lastvals = None
        self.numeric, self.abstract, self.knownkey = True, False, ""
        self.hints = []
        self.fnname = ""
        self.contract = ""
        self.deadline = None if budget is None else time.time() + budget
        self.in_proof = 0
        self.loops = []
        self.undef = []
        self.check_def = True
        self.bounded = False
        self.on_unsupported = []
        self.refuted_cases = 0
        self.path_cases = []
        self.abstract = False
        self.knownkey = ""
        self.merge_ifs = False
        self.guards = []
        self.shard, self.unit = None, -1

    # ------------------------------------------------------------ hooks used by sym
    def known_sign(self, s):
        return 0

    def on_division(self, s):
        """every divisor is non-zero: a definedness obligation, deferred to the end of the path"""
        if self.in_proof or not self.check_def or not self.frames:
            return
        if sym.surely_pos(s) or sym.surely_pos(-s):
            return
        c = rel("eq", s, S.const(0))
        if c is False:
            return
        self.undef.append((neg(c), list(self.pc()), self.fnname))

    # ------------------------------------------------------------ path conditions
    def pc(self):
        out = []
        for f in self.frames:
            out.extend(f.pc)
        return out

    def assume(self, b):
        if b is True or (isinstance(b, _np.bool_) and bool(b)):
            return
        if b is False:
            raise Infeasible()
        if isinstance(b, SBool) and b.op == "and":
            for x in b.args:
                self.assume(x)
            return
        self.frames[-1].pc.append(b)

    def _implied_fast(self, b):
        k = b.key()
        nk = (~b).key()
        for c in self.pc():
            ck = c.key()
            if ck == k:
                return True
            if ck == nk:
                return False
        return None

    def decide(self, b):
        if isinstance(b, (bool, _np.bool_)):
            return bool(b)
        if not self.frames:
            raise Unsupported("symbolic condition outside a path")
        if self.deadline and time.time() > self.deadline:
            raise Stop("time budget")
        r = self._implied_fast(b)
        if r is not None:
            return r
        f = self.frames[-1]
        if f.pos < len(f.trace):
            v = f.trace[f.pos]
            f.pos += 1
        else:
            pc = self.pc()
            t = self.feasible(pc + [b])
            e = self.feasible(pc + [~b]) if t else True
            if t and e:
                v = True
                f.pending.append(f.trace + [False])
            else:
                v = bool(t)
            f.trace.append(v)
            f.pos += 1
            if len(f.trace) > 400:
                raise Unsupported("too many decisions on one path")
        self.assume(b if v else ~b)
        return v

    def feasible(self, cs):
        key = frozenset(c.key() for c in cs if isinstance(c, SBool))
        r = self.fcache.get(key)
        if r is None:
            r = self._z3(cs, self.feas_ms, quick=True) != "unsat"
            self.fcache[key] = r
        return r

    def _z3(self, cs, ms, quick=False, want_model=False):
        t0 = time.time()
        self.calls += 1
        try:
            for linear in (True, False):
                z = Z(linear)
                try:
                    es = [z.b(c) for c in cs]
                except Unsupported:
                    return "unknown"
                s = z3.Solver()
                s.set("timeout", int(ms[0]))
                s.set("rlimit", int(ms[1]))
                for x in es:
                    s.add(x)
                for x in z.side:
                    s.add(x)
                n = sum(1 for _ in z.side) + len(es)
                r = s.check()
                if r == z3.unsat:
                    return "unsat"
                if linear:
                    if quick and n > 400:
                        return "unknown"
                    continue
                if r == z3.sat:
                    if want_model:
                        self.last_model = (z, s.model())
                    return "sat"
                return "unknown"
        finally:
            self.solver_time += time.time() - t0

    # ------------------------------------------------------------ sampling models of a path
    def samples(self, pc, want, tries=400, hints=None, prefer=None):
        """NumEnvs that satisfy the path condition"""
        out = []
        hs = list(self.hints if hints is None else hints)
        rng = random.Random(hashlib.sha256(repr((self.seed, self.contract, len(pc))).encode()).digest()[:8])
        subs = self._solve_equalities(pc)
        for k in range(tries + len(hs)):
            vals = dict(hs[k]) if k < len(hs) else (dict(rng.choice(hs)) if hs and rng.random() < 0.3 else {})
            vals = {n: (Fraction(repr(v)) if isinstance(v, float) else v) for n, v in vals.items()}
            env = NumEnv(rng, vals)
            try:
                for a, rhs in subs:
                    env.values[a.name] = env.ev(rhs)
                    env.memo.clear()
                if all(env.truth(c) for c in pc):
                    out.append(env)
                    if len(out) >= want:
                        break
            except (ArithmeticError, Unsupported, ValueError, ZeroDivisionError):
                continue
        if not out:
            env = self._z3_sample(pc, rng)
            if env is not None:
                out.append(env)
        return out

    def _solve_equalities(self, pc):
        """equalities of the path condition solved for a variable that occurs linearly"""
        subs = []
        used = set()
        for c in pc:
            if isinstance(c, SBool) and c.op == "rel" and c.args[0] == "eq":
                d = c.args[1]
                for i in sorted({i for m in d.p for i, _ in m}, reverse=True):
                    a = ATOMS[i]
                    if a.kind != "var" or i in used:
                        continue
                    if any(dict(m).get(i, 0) not in (0, 1) for m in d.p):
                        continue
                    lin = {tuple((j, e) for j, e in m if j != i): c2 for m, c2 in d.p.items() if dict(m).get(i)}
                    rest = {m: c2 for m, c2 in d.p.items() if not dict(m).get(i)}
                    if any(self._deep_uses(m, i) for m in list(lin) + list(rest)):
                        continue
                    if len(lin) != 1 or () not in lin:
                        continue
                    subs.append((a, S(rest) * S.const(Fraction(-1) / lin[()])))
                    used.add(i)
                    break
        return subs

    def _deep_uses(self, m, i):
        for j, _ in m:
            if j != i and self._atom_uses(ATOMS[j], i):
                return True
        return False

    def _atom_uses(self, a, i):
        if a.kind in ("var", "pi"):
            return a.id == i
        def go(x):
            if isinstance(x, S):
                return any(b.id == i or self._atom_uses(b, i) for b in x.atoms())
            if isinstance(x, SBool):
                return any(go(y) for y in x.args)
            if isinstance(x, (tuple, list)):
                return any(go(y) for y in x)
            if isinstance(x, dict):
                return any(j == i or self._atom_uses(ATOMS[j], i) for m in x for j, _ in m)
            return False
        return go(a.args)

    def _z3_sample(self, pc, rng):
        self.in_proof += 1
        try:
            if self._z3(pc, self.model_ms, want_model=True) != "sat":
                return None
            z, m = self.last_model
            vals = {}
            for i, v in z.vars.items():
                if ATOMS[i].kind == "var":
                    x = m.eval(v, model_completion=True)
                    try:
                        if z3.is_rational_value(x):
                            vals[ATOMS[i].name] = Fraction(x.numerator_as_long(), x.denominator_as_long())
                        elif z3.is_algebraic_value(x):
                            y = x.approx(40)
                            vals[ATOMS[i].name] = Fraction(y.numerator_as_long(), y.denominator_as_long())
                    except Exception:
                        pass
            env = NumEnv(rng, vals)
            for n, b in z.bools.items():
                pass
            try:
                if all(env.truth(c) for c in pc):
                    return env
            except (ArithmeticError, Unsupported, ValueError, ZeroDivisionError):
                return None
            return None
        finally:
            self.in_proof -= 1

    # ------------------------------------------------------------ obligations
    def _record(self, name, status, backend, t, case=None, detail=""):
        o = Obligation(f"{self.contract}: {name}", status, backend, t, case, detail,
                       path=self._pathname(), fn=self.fnname)
        o.abstract, o.known, o.numeric, o.order = self.abstract, self.knownkey, self.numeric, self.unit
        if status == "refuted":
            o.values = self.lastvals
            if self.abstract and case is None:
                o.feasible = self._reached()
        self.obls.append(o)
        return o

    def _reached(self):
        """the path is known to be taken by some input (not only: not refuted within the resources)"""
        pc = self.pc()
        return not pc or bool(self.samples(pc, 1)) or self._z3(pc, self.model_ms) == "sat"

    def _pathname(self):
        return " & ".join(str(c)[:60] for c in self.pc()[:6])

    def mkcase(self, env):
        self.lastvals = {k: float(v) for k, v in env.values.items() if isinstance(k, str)}
        if self.case_of is None:
            return None
        try:
            return self.case_of(env)
        except Exception as e:
            return None

    def zero(self, name, x, tol=None):
        """x == 0 on every input of this path (x: number or array)"""
        t0 = time.time()
        self.in_proof += 1
        try:
            xs = [coerce(v) for v in _np.ravel(_np.asarray(x, dtype=object))]
            if any(v is None for v in xs):
                return self._record(name, "refuted", "normal-form", time.time() - t0, self._anycase(),
                                    "result is not a number")
            bad = []
            why = ""
            for v in xs:
                if not v.p:
                    continue
                r = self._zero1(v)
                if r == "zero":
                    continue
                bad.append((v, r))
            if not bad:
                return self._record(name, "discharged", "normal-form", time.time() - t0)
            # refute numerically
            pc = self.pc()
            envs = self.samples(pc, 6)
            evaluated = set()
            for env in envs:
                for k, (v, r) in enumerate(bad):
                    try:
                        val, mag = env.ev(v), env.mag(v.p)
                    except (ArithmeticError, Unsupported, ValueError, ZeroDivisionError):
                        continue
                    evaluated.add(k)
                    if abs(val) > mag * mpmath.mpf(10) ** -30 and mag > 0:
                        return self._record(name, "refuted", "normal-form", time.time() - t0, self.mkcase(env),
                                            f"value {mpmath.nstr(val, 8)} (terms of size {mpmath.nstr(mag, 4)}): {sym.show(v.p, 4)}")
            # z3 with the path condition
            if all(len(v.p) < 400 for v, _ in bad):
                goal = conj(*[rel("eq", v, S.const(0)) for v, _ in bad])
                if goal is True:
                    return self._record(name, "discharged", "normal-form", time.time() - t0)
                if goal is not False and self._z3(pc + [neg(goal)], self.z3_ms) == "unsat":
                    return self._record(name, "discharged", "z3", time.time() - t0)
            o = self._record(name, "unknown", "normal-form+z3", time.time() - t0,
                             detail=f"{len(bad)} component(s) not decided: {bad[0][1]}: {sym.show(bad[0][0].p, 4)}")
            o.failed = any(r == "nonzero normal form" for k, (_, r) in enumerate(bad) if k not in evaluated)
            o.feasible = not (o.failed and self.abstract) or bool(envs) or self._reached()
            return o
        except Unsupported as e:
            return self._record(name, "unknown", "normal-form", time.time() - t0, detail=str(e))
        finally:
            self.in_proof -= 1

    def _zero1(self, v):
        try:
            z, rest = is_zero_poly(v.p)
            if z:
                return "zero"
            # substitute equalities of the path condition
            subs = self._solve_equalities(self.pc())
            if subs:
                w = S(rest)
                for a, rhs in subs:
                    w = subst(w, {a.id: rhs})
                z, rest = is_zero_poly(w.p)
                if z:
                    return "zero"
            return "nonzero normal form"
        except TooBig as e:
            return str(e)

    def eq(self, name, a, b):
        try:
            a = _np.asarray(a, dtype=object)
            b = _np.asarray(b, dtype=object)
            if a.shape != b.shape:
                return self._record(name, "refuted", "structural", 0.0, self._anycase(),
                                    f"shape {a.shape} instead of {b.shape}")
            d = [_sub(x, y) for x, y in zip(a.ravel(), b.ravel())]
        except (TypeError, ValueError) as e:
            return self._record(name, "refuted", "structural", 0.0, self._anycase(), "not numeric: " + str(e))
        except Unsupported as e:
            return self._record(name, "unknown", "structural", 0.0, detail=str(e))
        if any(x is None for x in d):
            return self._record(name, "refuted", "structural", 0.0, self._anycase(), "not numeric")
        return self.zero(name, _np.array(d, dtype=object) if d else 0)

    def same(self, name, ok, detail=""):
        """a condition that must be concretely true on this path"""
        if isinstance(ok, SBool):
            return self.prove(name, ok)
        if ok:
            return self._record(name, "discharged", "structural", 0.0)
        return self._record(name, "refuted", "structural", 0.0, self._anycase(), detail)

    def prove(self, name, b):
        t0 = time.time()
        self.in_proof += 1
        try:
            if isinstance(b, (bool, _np.bool_)):
                if b:
                    return self._record(name, "discharged", "structural", 0.0)
                return self._record(name, "refuted", "structural", 0.0, self._anycase(), "condition is false")
            pc = self.pc()
            f = self._implied_fast(b)
            if f is True:
                return self._record(name, "discharged", "structural", time.time() - t0)
            nb = neg(b)
            for env in self.samples(pc, 6):
                try:
                    if env.truth(nb) and self._robust(env, b):
                        return self._record(name, "refuted", "z3", time.time() - t0, self.mkcase(env),
                                            "condition false: " + str(b)[:200])
                except (ArithmeticError, Unsupported, ValueError, ZeroDivisionError):
                    continue
            if self._z3(pc + [nb], self.z3_ms) == "unsat":
                return self._record(name, "discharged", "z3", time.time() - t0)
            env = None
            env = self._z3_sample(pc + [nb], self.rng) if not _hasbool(b) else None
            if env is not None:
                return self._record(name, "refuted", "z3", time.time() - t0, self.mkcase(env),
                                    "condition false: " + str(b)[:200])
            return self._record(name, "unknown", "z3", time.time() - t0, detail=str(b)[:200])
        except Unsupported as e:
            return self._record(name, "unknown", "z3", time.time() - t0, detail=str(e))
        finally:
            self.in_proof -= 1

    def case(self, t):
        """from here on a counterexample is this input"""
        self.case_of = template(t)

    def _robust(self, env, b):
        return True

    def _anycase(self):
        self.in_proof += 1
        try:
            for env in self.samples(self.pc(), 1):
                return self.mkcase(env)
            self.lastvals = None
            return None
        finally:
            self.in_proof -= 1

    # ------------------------------------------------------------ exploration
    def run(self, name, fn, case_of=None, hints=(), functions=(), max_paths=None, bounded=False, abstract=False, known="", spaths=4, merge=False, numeric=True):
        """verify one contract: `fn(E)` is re-executed once per feasible path"""
        self.unit += 1
        if self.shard is not None and self.unit % self.shard[1] != self.shard[0]:
            return []
        from . import shim_np
        self.contract = name
        if case_of is not None and not callable(case_of):
            case_of = template(case_of)
        self.case_of = case_of
        self.merge_ifs = merge
        self.abstract, self.knownkey, self.numeric = abstract, known, numeric
        self.hints = list(hints)
        self.functions.update(functions)
        self.fnname = ", ".join(functions)
        sym.set_engine(self)
        queue = [[]]
        n = 0
        before = len(self.obls)
        start = time.time()
        while queue:
            tr = queue.pop()
            n += 1
            if n > (max_paths or self.max_paths):
                self.notes.append(f"{name}: more than {n - 1} paths")
                self._record("path exploration", "unknown", "engine", 0.0, detail="path limit")
                break
            f = Frame(tr)
            self.frames = [f]
            self.undef = []
            self.loops = []
            self.guards = []
            sym._fresh[0] = 0
            shim_np.FS.clear()
            from .coll import Grid
            Grid.count = 0
            status = "ok"
            try:
                fn(self)
            except Infeasible:
                status = "infeasible"
            except Stop as e:
                self._record("path exploration", "unknown", "engine", 0.0, detail=str(e))
                break
            except (Unsupported, RecursionError, MemoryError) as e:
                status = "unsupported"
                self._record("supported", "unknown", "engine", 0.0, detail=f"{type(e).__name__}: {e}" + _where(e))
            except Exception as e:
                status = "exception"
                self.frames = [f]
                self._record("no unexpected exception", "refuted", "execution", 0.0, self._anycase(),
                             f"{type(e).__name__}: {e}" + _where(e))
            self.frames = [f]
            queue.extend(f.pending)
            if status == "infeasible":
                continue
            self.paths += 1
            if status == "ok":
                self._definedness()
                w = self.samples(self.pc(), 1)
                if w:
                    self.covered += 1
                    if self.case_of is not None and spaths > 0:
                        c = self.mkcase(w[0])
                        if c is not None:
                            spaths -= 1
                            self.path_cases.append(c)
                else:
                    self.uncovered.append(f"{name}: {self._pathname()}")
            self.frames = []
        self.frames = []
        if len(self.obls) == before:
            self._record("non-vacuous", "unknown", "engine", 0.0, detail="contract generated no obligation")
        if bounded:
            for o in self.obls[before:]:
                o.backend += " (bounded)"
        return self.obls[before:]

    def parallel(self, contracts, seconds, nproc=8):
        """the contracts, which are independent of each other, in forked processes (each takes every n-th); their records are merged"""
        nproc = min(nproc, os.cpu_count() or 1)
        if nproc < 2:
            return contracts(self)
        kids = []
        sys.stdout.flush()
        end = time.time() + seconds
        for j in range(nproc):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                    signal.setitimer(signal.ITIMER_REAL, max(1, end - time.time()), 5)
                    self.shard = (j, nproc)
                    try:
                        contracts(self)
                    except (Exception, Stop, Infeasible) as e:
                        self.frames = []
                        self._record("contract setup", "unknown", "engine", 0.0, detail=f"{type(e).__name__}: {e}")
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                    for o in self.obls:
                        o.detail = str(o.detail)
                    data = pickle.dumps(dict(obls=self.obls, functions=self.functions, paths=self.paths, covered=self.covered, uncovered=self.uncovered, path_cases=self.path_cases,
                                             calls=self.calls, solver_time=self.solver_time, notes=self.notes, assumptions=self.assumptions))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        for pid, r in kids:
            data = b""
            try:
                with os.fdopen(r, "rb") as f:
                    while True:
                        if not select.select([f], [], [], max(0.1, end + 20 - time.time()))[0]:
                            os.kill(pid, signal.SIGKILL)
                            break
                        b = os.read(f.fileno(), 1 << 20)
                        if not b:
                            break
                        data += b
                os.waitpid(pid, 0)
                d = pickle.loads(data)
            except Exception as e:
                self.contract = "parallel contracts"
                self._record("finished", "unknown", "engine", 0.0, detail=f"{type(e).__name__}: {e}")
                continue
            self.obls += d["obls"]
            self.functions |= d["functions"]
            for k in ("paths", "covered", "calls", "solver_time"):
                setattr(self, k, getattr(self, k) + d[k])
            for k in ("uncovered", "path_cases", "notes", "assumptions"):
                setattr(self, k, getattr(self, k) + d[k])
        self.obls.sort(key=lambda o: o.order)

    def _definedness(self):
        seen = set()
        for b, pc, fn in self.undef:
            if not isinstance(b, SBool):
                continue
            k = (b.key(), len(pc))
            if k in seen:
                continue
            seen.add(k)
            saved = self.frames
            fr = Frame()
            fr.pc = pc
            self.frames = [fr]
            t0 = time.time()
            d = b.args[0].args[1] if b.op == "not" else None
            goal = b
            if d is not None:
                goal = nonzero_goal(d)
            st = "unknown"
            self.in_proof += 1
            try:
                if goal is True or self._z3(pc + [neg(goal)], self.z3_ms) == "unsat":
                    st = "discharged"
            except Unsupported:
                pass
            finally:
                self.in_proof -= 1
            self._record("divisor is non-zero", st, "z3", time.time() - t0, detail="" if st == "discharged" else str(b)[:160])
            self.frames = saved

    # ------------------------------------------------------------ summary
    def counts(self):
        c = {"discharged": 0, "refuted": 0, "unknown": 0}
        for o in self.obls:
            c[o.status] += 1
        return c


NORMS = {}     # sqrt atom id -> vector components


def nonzero_goal(d):
    """d != 0, decomposed along products and norms"""
    if len(d.p) == 1:
        (m, c), = d.p.items()
        parts = []
        for i, e in m:
            a = ATOMS[i]
            if a.pos or e < 0:
                continue
            if i in NORMS:
                parts.append(disj(*[neg(rel("eq", x, S.const(0))) for x in NORMS[i]]))
            elif a.kind == "abs":
                parts.append(nonzero_goal(S(a.args)))
            elif a.kind == "sqrt":
                parts.append(nonzero_goal(S(a.args)))
            else:
                parts.append(neg(rel("eq", S.of(a), S.const(0))))
        return conj(*parts)
    return neg(rel("eq", d, S.const(0)))


def template(t):
    """case builder: a nested structure whose S leaves are evaluated in the sampled environment"""
    def go(x, env):
        if isinstance(x, S):
            v = env.ev(x)
            return float(v)
        if isinstance(x, SBool):
            return bool(env.truth(x))
        if isinstance(x, dict):
            return {k: go(v, env) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [go(v, env) for v in x]
        if isinstance(x, _np.ndarray):
            return [go(v, env) for v in x]
        return x
    return lambda env: go(t, env)


def _hasbool(b):
    if isinstance(b, SBool):
        return b.op == "var" or any(_hasbool(x) for x in b.args if isinstance(x, SBool))
    return False


def _sub(x, y):
    cx, cy = coerce(x), coerce(y)
    if cx is None or cy is None:
        return None
    return cx - cy


def subst(s, env):
    """replace variable atoms (by id) with S values, recursively through opaque atoms"""
    memo = {}

    def sa(i):
        if i in memo:
            return memo[i]
        if i in env:
            r = env[i]
        else:
            a = ATOMS[i]
            k = a.kind
            if k in ("var", "pi"):
                r = S.of(a)
            elif k == "den":
                r = sp(a.args)
            elif k == "sqrt":
                r = sym.ssqrt(sp(a.args))
            elif k == "abs":
                r = sym.sabs(sp(a.args))
            elif k == "sin":
                r = sym.ssin(ss(a.args[0]))
            elif k == "cos":
                r = sym.scos(ss(a.args[0]))
            elif k == "max":
                r = sym.smax(*[ss(x) for x in a.args])
            elif k == "min":
                r = sym.smin(*[ss(x) for x in a.args])
            elif k == "fn":
                nm, args = a.args
                r = sym.fn(nm, *[ss(x) if isinstance(x, S) else x for x in args], pos=a.pos, nonneg=a.nonneg)
            elif k == "ind":
                r = sym.ind(sbool(a.args[0]))
            elif k == "sum":
                el, body = a.args
                r = sym.Sum(el, sp(body))
            else:
                raise Unsupported("substitution in " + k)
        memo[i] = r
        return r

    def sbool(b):
        if not isinstance(b, SBool):
            return b
        if b.op == "rel":
            return rel(b.args[0], ss(b.args[1]), S.const(0))
        if b.op == "not":
            return neg(sbool(b.args[0]))
        if b.op == "and":
            return conj(*[sbool(x) for x in b.args])
        if b.op == "or":
            return disj(*[sbool(x) for x in b.args])
        return b

    def sp(p):
        out = S({})
        for m, c in p.items():
            t = S.const(c)
            for i, e in m:
                v = sa(i)
                t = t * (v ** e if e >= 0 else v.inv() ** (-e))
            out = out + t
        return out

    def ss(x):
        return sp(x.p)
    return ss(s)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if "/hyperstatic/" in fr.filename:
            return f" at {fr.filename.split('/hyperstatic/')[-1]}:{fr.lineno} ({fr.name})"
    return ""
