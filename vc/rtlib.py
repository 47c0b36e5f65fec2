"""Helpers called by instrumented source (see loader.py)."""
import builtins
import itertools
import numpy as _np
from fractions import Fraction
from . import sym
from .sym import S, SBool, Elem, Unsupported, coerce
from .coll import (SList, SDict, LoopIter, UNBOUND, Poison, is_symbolic, length, parts_of, map_parts, SymRange, SymArray,
                   norm_inner)


def _c(text):
    return S.const(sym.norm(Fraction(text)))


def _isint(x):
    return isinstance(x, (int, _np.integer)) or (isinstance(x, _np.ndarray) and x.dtype.kind in "ib")


def _toS(x):
    if isinstance(x, _np.ndarray):
        o = _np.empty(x.size, dtype=object)
        for i, v in enumerate(x.ravel().tolist()):
            o[i] = coerce(v)
        return o.reshape(x.shape)
    return coerce(x)


def _div(a, b):
    if _isint(a) and _isint(b):
        return _toS(a) / _toS(b)
    return a / b


def _mod(a, b):
    if isinstance(a, str):
        try:
            return a % b
        except Unsupported:
            return a + " % <symbolic>"
    return a % b


def _fmt(v, *a):
    try:
        return format(v, *a)
    except (Unsupported, TypeError):
        return "<symbolic>"


class _Fl(type(float)):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, S) and not (x.isconst() and isinstance(x.cval(), int) and False))


class vfloat(float, metaclass=_Fl):
    def __new__(cls, x=0.0):
        if isinstance(x, str):
            return coerce(float(x))
        c = coerce(x)
        if c is None:
            if isinstance(x, _np.ndarray) and x.size == 1:
                return coerce(x.ravel()[0])
            return coerce(float(x))
        return c


class _In(type(int)):
    def __instancecheck__(cls, x):
        return isinstance(x, int)


class vint(int, metaclass=_In):
    def __new__(cls, x=0, *a):
        if isinstance(x, S):
            if x.isconst():
                return int(x.cval())
            if isinstance(x.single_atom(), object) and _intlike(x):
                return x
            raise Unsupported("int() of a symbolic value")
        return int(x, *a)


def _intlike(x):
    return all(sym.ATOMS[i].kind == "fn" and str(sym.ATOMS[i].args[0]) in ("hid", "idx") for m in x.p for i, _ in m)


def vlen(x):
    if is_symbolic(x) or isinstance(x, (SList, SDict)):
        return length(x)
    return builtins.len(x)


def vmax(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not builtins.any(isinstance(x, S) for x in xs):
        return builtins.max(*a, **k)
    if builtins.all(coerce(x) is not None for x in xs):
        return sym.smax(*xs)
    return builtins.max(*a, **k)


def vmin(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not builtins.any(isinstance(x, S) for x in xs):
        return builtins.min(*a, **k)
    if builtins.all(coerce(x) is not None for x in xs):
        return sym.smin(*xs)
    return builtins.min(*a, **k)


def vsum(x, start=0):
    if is_symbolic(x):
        t = coerce(start)
        return t + _sumparts(parts_of(x))
    t = start
    for v in x:
        t = t + v
    return t


def _sumparts(ps):
    t = S.const(0)
    for p in ps:
        if p[0] == "c":
            for x in p[1]:
                t = t + x
        elif p[0] == "s":
            if p[1] is None:
                raise Unsupported("sum of a conditionally filled list")
            b = S.const(0)
            for cond, inner in p[2]:
                s = _sumparts(norm_inner(inner))
                b = b + (s if cond is True else sym.ind(cond) * s)
            t = t + sym.Sum(p[1], b)
        else:
            t = t + _sumparts(p[1])
    return t


def vabs(x):
    return builtins.abs(x)


def vsorted(x, **k):
    if is_symbolic(x):
        r = SList(x)
        rev = k.pop("reverse", False)
        if k:
            raise Unsupported("sorted with a key")
        r.sort()
        return vreversed(r) if rev else r
    return SList(builtins.sorted(x, **k))


def vreversed(x):
    if is_symbolic(x) and isinstance(x, SList) and x._sym is not None and len(x._sym) == 1 and x._sym[0][0] == "sorted":
        from . import idxset
        return idxset.Desc(idxset.IdxSet(x._sym[0][1]))
    if is_symbolic(x):
        raise Unsupported("reversed symbolic list")
    return SList(builtins.reversed(SList(x) if not isinstance(x, builtins.range) else x))


def vzip(*xs, **k):
    if builtins.any(is_symbolic(x) for x in xs):
        raise Unsupported("zip of symbolic lists")
    return builtins.zip(*xs, **k)


def vmap(f, *xs):
    if builtins.any(is_symbolic(x) for x in xs):
        if len(xs) == 1:
            return vcomp(f, xs[0], None)
        raise Unsupported("map over symbolic lists")
    return SList(builtins.map(f, *xs))


def venumerate(x, start=0):
    if is_symbolic(x):
        raise Unsupported("enumerate of a symbolic list")
    return builtins.enumerate(x, start)


def vrange(*a):
    a = [(x.__index__() if isinstance(x, S) and x.isconst() else x) for x in a]
    if len(a) == 2 and builtins.any(isinstance(x, S) for x in a):
        w = coerce(a[1]) - coerce(a[0])
        if w.isconst() and 0 <= w.cval() <= 64:         # a window of constant width
            return SList([coerce(a[0]) + k for k in builtins.range(int(w.cval()))])
    if builtins.any(isinstance(x, S) for x in a):
        if len(a) == 1:
            return SymRange(S.const(0), a[0])
        raise Unsupported("symbolic range")
    return builtins.range(*a)


def vtuple(x=()):
    if is_symbolic(x):
        raise Unsupported("tuple of a symbolic list")
    return builtins.tuple(x)


class _vtuple_meta(type(tuple)):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.tuple)


def vset(x=()):
    if is_symbolic(x):
        raise Unsupported("set of a symbolic list")
    return builtins.set(x)


def vany(x):
    if is_symbolic(x):
        raise Unsupported("any() over a symbolic list")
    return builtins.any(x)


def vall(x):
    if is_symbolic(x):
        raise Unsupported("all() over a symbolic list")
    return builtins.all(x)


def vprint(*a, **k):
    return None


def vround(x, n=None):
    if isinstance(x, S):
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def vpow(a, b, *c):
    return a ** b if not c else builtins.pow(a, b, *c)


def vlist_of(x):
    return SList(x)


def symbolic(x):
    return is_symbolic(x)


class Guard:
    """conditional block executed under a guard instead of forking (append-only blocks, opt-in per contract)"""

    def __init__(self, b):
        self.b = b


def guard(test):
    e = sym.ENGINE
    if isinstance(test, SBool) and e is not None and e.merge_ifs and e.frames and e._implied_fast(test) is None:
        g = Guard(test)
        e.guards.append(test)
        return g
    return builtins.bool(test)


def unguard(g):
    if isinstance(g, Guard):
        sym.ENGINE.guards.pop()


def isguard(g):
    return isinstance(g, Guard)


def poison(n):
    return Poison(n)


def loop(x, site=""):
    from . import idxset
    if isinstance(x, idxset.Desc):
        return idxset.DescLoop(x, sym.ENGINE)
    if isinstance(x, (SymRange, idxset.LVec)):
        return idxset.RangeLoop(x, sym.ENGINE)
    return LoopIter(x, site)


def vcomp(f, it, cond):
    """list comprehension with one generator"""
    if not is_symbolic(it):
        if cond is None:
            return SList([f(x) for x in it])
        return SList([f(x) for x in it if cond(x)])
    out = SList()
    L = loop(it, "comprehension")
    for x in L:
        L.enter((), (), ())
        try:
            if cond is None or cond(x):
                out.append(f(x))
        except BaseException as e:
            L.abort(e)
            raise
        finally:
            L.leave(())
    return out


def vdictcomp(fk, fv, it, cond):
    if not is_symbolic(it):
        return SDict([(fk(x), fv(x)) for x in it if cond is None or cond(x)])
    out = SDict()
    L = LoopIter(it, "comprehension")
    for x in L:
        L.enter((), (), ())
        try:
            if cond is None or cond(x):
                out[fk(x)] = fv(x)
        except BaseException as e:
            L.abort(e)
            raise
        finally:
            L.leave(())
    return out


NAMES = {"list": SList, "dict": SDict, "len": vlen, "max": vmax, "min": vmin, "sum": vsum, "sorted": vsorted,
         "reversed": vreversed, "zip": vzip, "map": vmap, "enumerate": venumerate, "range": vrange,
         "float": vfloat, "int": vint, "print": vprint, "round": vround, "pow": vpow, "any": vany, "all": vall,
         "set": vset}
