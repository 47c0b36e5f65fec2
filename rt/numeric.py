"""Executes the contracts of props/Cxx.py with numbers on the unmodified source (CPython, real numpy/scipy): the replay of a
refuted obligation that has no hand-written run-time case.  The names of vc.api get their numeric meaning here; whatever has
none (collections of symbolic size, ghost files, stubs of other functions) makes the contract unavailable in this mode."""
import contextlib
import importlib
import io
import json
import math
import random
import signal
import sys
import time
import traceback
import types
import warnings
from fractions import Fraction

import numpy as np


class Abstract(BaseException):
    """the contract is not executable on numbers"""


class Skip(BaseException):
    """the drawn values do not satisfy the preconditions"""


class Timeout(BaseException):
    pass


class Abs:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Abs()

    def _new(self, *a, **k):
        return Abs()
    __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = __getitem__ = _new
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _new

    def _bad(self, *a, **k):
        raise Abstract()
    __bool__ = __iter__ = __len__ = __float__ = __int__ = __array__ = __hash__ = __setitem__ = __contains__ = __index__ = _bad


class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Abs()


class Num(float):
    """S.const / S.of: plain numbers"""


class S:
    @staticmethod
    def const(x):
        return x if isinstance(x, (int, Fraction)) else float(x)

    of = const


class Values:
    def __init__(self, rng, given):
        self.rng, self.given, self.memo = rng, given, {}

    def __call__(self, name, pos=False, nonneg=False, **k):
        if name not in self.memo:
            r = self.rng
            v = self.given.get(name)
            if v is None:
                if pos:
                    v = round(r.uniform(.05, 6), 6)
                elif nonneg:
                    v = r.choice([0., round(r.uniform(0, 6), 6)])
                else:
                    v = r.choice([round(r.uniform(-6, 6), 6), round(r.uniform(-1, 1), 6), float(r.randint(-4, 4))])
            self.memo[name] = float(v)
        return self.memo[name]


VAL = None


def num(a):
    a = np.asarray(a)
    if a.dtype == object:
        a = np.array([float(x) for x in a.ravel()]).reshape(a.shape)
    return a.astype(float)


class Engine:
    def __init__(self, tier, only, report):
        self.tier, self.only, self.report = tier, only, report
        self.assumptions, self.rng, self.current = [], random.Random(1), ""

    def assume(self, b):
        if not bool(b):
            raise Skip()

    def decide(self, b):
        return bool(b)

    def case(self, t):
        pass

    def _fail(self, name, msg):
        self.report("fail", self.current, name, msg)

    def eq(self, name, a, b):
        if isinstance(a, Abs) or isinstance(b, Abs):
            raise Abstract()
        try:
            a, b = num(a), num(b)
        except (TypeError, ValueError) as e:
            return self._fail(name, f"not numeric: {e}")
        self.report("checked", self.current, name, "")
        if a.shape != b.shape:
            return self._fail(name, f"shape {a.shape} instead of {b.shape}")
        if a.size == 0:
            return
        tol = 1e-6 * max(1e-3, np.abs(b).max()) if np.isfinite(b).all() else 0
        if not np.isfinite(a).all() or not (np.abs(a - b) <= tol).all():
            k = int(np.argmax(np.where(np.isfinite(a), np.abs(a - b), np.inf)))
            self._fail(name, f"entry {k}: {a.ravel()[k]!r} instead of {b.ravel()[k]!r}")

    def zero(self, name, x, tol=None):
        x = num(x)
        self.eq(name, x, np.zeros_like(x))

    def same(self, name, ok, detail=""):
        self.report("checked", self.current, name, "")
        if not bool(ok):
            self._fail(name, detail or "condition is false")

    prove = same

    def _sameobj(self, *a):
        raise Abstract()

    def run(self, name, fn, case_of=None, hints=(), functions=(), numeric=True, **k):
        if not numeric or (self.only is not None and name != self.only):
            return []
        self.current = name
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fn(self)
            self.report("done", name, "", "")
        except Skip:
            self.report("skip", name, "", "")
        except Abstract:
            self.report("abstract", name, "", "")
        except Timeout:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            repo = [f for f in tb if "/hyperstatic/" in f.filename]
            inner = bool(tb) and ("/hyperstatic/" in tb[-1].filename or (repo and "/props/" not in tb[-1].filename and "/verif" not in tb[-1].filename))
            if repo and inner:
                self.report("raised", name, "no unexpected exception", f"{type(e).__name__}: {e} at {repo[-1].filename.split('/hyperstatic/')[-1]}:{repo[-1].lineno} ({repo[-1].name})")
            else:
                self.report("abstract", name, "", f"{type(e).__name__}: {e}")
        return []

    def __getattr__(self, n):
        return Abs()


def raises(f, *a, exc=Exception, **k):
    try:
        return False, f(*a, **k)
    except exc as e:
        return True, e


def install():
    def var(name, **k):
        return VAL(name, **k)

    def vec(name, n, **k):
        return np.array([var(f"{name}{i}", **k) for i in range(n)])

    def cross(a, b):
        return np.cross(np.asarray(a, float), np.asarray(b, float))

    def dot(a, b):
        return sum(x * y for x, y in zip(a, b))

    def mat(name, n, m=None, sym_=False):
        m = n if m is None else m
        return np.array([[var(f"{name}_{min(i, j)}_{max(i, j)}") if sym_ else var(f"{name}_{i}_{j}") for j in range(m)] for i in range(n)])

    def blockdiag(T, n):
        return np.kron(np.eye(n), np.asarray(T, float))

    def dense(x):
        return np.asarray(x.toarray() if hasattr(x, "toarray") else x)

    def program(src, **env):
        d = dict(env)
        exec(compile(src, "<client>", "exec"), d)
        return types.SimpleNamespace(**{k: v for k, v in d.items() if not k.startswith("__")})

    def load(name, *a, **k):
        if a or k:
            raise Abstract()
        return importlib.import_module(name)
    vc = types.ModuleType("vc")
    vc.__path__ = []
    sym = Mod("vc.sym")
    sym.Fraction = Fraction
    engine = Mod("vc.engine")
    engine.Infeasible = Skip
    api = types.ModuleType("vc.api")
    names = dict(npo=np, np=np, sym=sym, engine=engine, S=S, SBool=Abs, var=var, PI=math.pi, ssqrt=np.sqrt, sabs=abs, ssin=np.sin, scos=np.cos, smax=max, smin=min,
                 conj=lambda *b: all(bool(x) for x in b), disj=lambda *b: any(bool(x) for x in b), neg=lambda b: not bool(b), ite=lambda c, a, b: a if bool(c) else b,
                 ind=lambda b: 1. if bool(b) else 0., V=lambda *n, **k: [var(x, **k) for x in n], vec=vec, arr=np.array, mat=mat, cross=cross, dot=dot, nsq=lambda a: dot(a, a),
                 norm=lambda a: math.sqrt(dot(a, a)), raises=raises, blockdiag=blockdiag, dense=dense, load=load, program=program)
    for n in ("fn", "rel", "elem", "Sum", "card", "bvar", "SList", "SDict", "loader", "coll", "shim_sp", "Unsupported"):
        names[n] = Abs()
    names["Unsupported"] = Abstract
    api.__dict__.update(names)
    api.__all__ = list(names)
    mods = {"vc": vc, "vc.api": api, "vc.sym": sym, "vc.engine": engine}
    for n in ("loader", "coll", "shim_np", "shim_sp", "idxset", "linop", "ckernel", "rtlib"):
        mods["vc." + n] = Mod("vc." + n)
    sys.modules.update(mods)
    for n, m in mods.items():
        if n != "vc":
            setattr(vc, n[3:], m)


def alarm(*a):
    raise Timeout()


def main():
    global VAL
    req = json.load(sys.stdin)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    signal.signal(signal.SIGALRM, alarm)
    install()
    out = {"failures": [], "runs": {}, "available": True}
    t0 = time.time()
    try:
        prop = importlib.import_module("props." + req["prop"])
    except (Exception, Abstract) as e:
        prop = None
        out["available"] = False
        out["why"] = f"{type(e).__name__}: {e}"
    seen = {}

    def attempt(rng, given, only):
        global VAL
        VAL = Values(rng, given)
        got = {}

        def report(kind, contract, name, msg):
            r = out["runs"].setdefault(contract, {})
            r[kind] = r.get(kind, 0) + 1
            if kind == "abstract" and msg:
                r["why"] = msg
            if kind in ("fail", "raised"):
                seen[contract, name] = seen.get((contract, name), 0) + 1
                if seen[contract, name] <= 2:
                    got.setdefault(contract, []).append({"contract": contract, "name": name, "msg": msg, "kind": kind, "values": None})
        signal.alarm(req.get("seconds", 30))
        try:
            prop.contracts(Engine(req.get("tier", "quick"), only, report))
        except (Timeout, Skip, Abstract):
            pass
        except Exception as e:
            out["why"] = f"{type(e).__name__}: {e}"
        finally:
            signal.alarm(0)
        for c, fs in got.items():
            for f in fs:
                f["values"] = dict(VAL.memo)
                out["failures"].append(f)
    if prop is not None:
        rng = random.Random(req.get("seed", 1))
        for t in req.get("targets", []):
            if time.time() - t0 > req.get("limit", 100):
                break
            attempt(rng, t["values"], t["contract"])
        for _ in range(req.get("n", 0)):
            if time.time() - t0 > req.get("limit", 100):
                break
            attempt(rng, {}, None)
    json.dump(out, open(req["out"], "w"))


if __name__ == "__main__":
    main()
