"""Finite sets of integer indices given by lists of symbolic length, and the loop rules (invariants) over them.

An index list L (e.g. the restrained degrees of freedom) is a list whose entries are  c*fn(el) + k  for the elements el of a
collection, kept under conditions.  It is used as the set R of its entries; the entries are pairwise distinct because they are
6*hid + k with 0 <= k < 6 and hids are distinct per element (C15); other shapes are rejected as unsupported.
  inset(R, x)   x is in R          cnt(R, x)   number of entries of R smaller than x
Facts used (elementary, over the integers):
  (pigeonhole)  between(R, i, x) = #{j in R: i < j < x} satisfies 0 <= between <= max(0, x-1-i)
  (step)        cnt(R, i+1) = cnt(R, i) + [i in R];  #{j in R: i <= j < x} = between(R, i, x) + [i < x] for i in R
"""
import itertools
from . import sym
from .sym import S, SBool, coerce, conj, disj, neg, rel, bvar, Unsupported, ind


def _terms(ps, conds, els, out):
    from .coll import norm_inner
    for p in ps:
        if p[0] == "c":
            for x in p[1]:
                out.append((els, conds, coerce(x)))
        elif p[0] == "sorted":
            _terms(p[1], conds, els, out)
        else:
            for cond, inner in p[2]:
                _terms(norm_inner(inner), conds + ([cond] if cond is not True else []), els + ([p[1]] if p[1] is not None else []), out)


def _bools(b, out):
    if isinstance(b, SBool):
        if b.op in ("and", "or", "not"):
            for y in b.args:
                _bools(y, out)
        else:
            out[b.key()] = b
    return out


def _ev(b, env):
    if not isinstance(b, SBool):
        return bool(b)
    if b.op == "not":
        return not _ev(b.args[0], env)
    if b.op == "and":
        return all(_ev(y, env) for y in b.args)
    if b.op == "or":
        return any(_ev(y, env) for y in b.args)
    return env[b.key()]


def canon(b):
    """truth table of a condition over the atomic conditions it really depends on"""
    atoms = _bools(b, {})
    ks = sorted(atoms, key=repr)
    if len(ks) > 12:
        raise Unsupported("condition with too many atoms")
    tab = {v: _ev(b, dict(zip(ks, v))) for v in itertools.product((False, True), repeat=len(ks))}
    for k in list(ks):
        i = ks.index(k)
        if all(tab[v] == tab[v[:i] + (not v[i],) + v[i + 1:]] for v in tab):
            tab = {v[:i] + v[i + 1:]: t for v, t in tab.items() if not v[i]}
            ks.remove(k)
    return (tuple(ks), tuple(sorted(v for v, t in tab.items() if t)))


class IdxSet:
    _vc_noiter = True

    def __init__(self, ps):
        out = []
        _terms(ps, [], [], out)
        g = {}
        for els, conds, x in out:
            if len(els) > 1:
                raise Unsupported("index list over several collections")
            k = (repr(els[0]) if els else "", sym.pkey(x.p))
            g[k] = (els, x, disj(g[k][2], conj(*conds)) if k in g else conj(*conds))
        self.terms = list(g.values())
        # distinctness: 6*hid + k
        seen = set()
        colls = set()
        for els, x, _ in self.terms:
            hs = [a for a in x.atoms() if a.kind == "fn" and a.args[0] == "hid"]
            r = x - sum((S.of(a) * 6 for a in hs), S.const(0))
            if els:
                if len(hs) != 1 or not r.isconst() or not 0 <= r.cval() < 6:
                    raise Unsupported("index list that is not a list of degrees of freedom")
                colls.add(repr(els[0]))
            elif not x.isconst():
                raise Unsupported("index list that is not a list of degrees of freedom")
        if len(colls) > 1:
            raise Unsupported("index list over several collections")
        self.key = tuple(sorted(((repr(els[0]) if els else ""), repr(x), canon(c)) for els, x, c in self.terms))
        self.id = "R%d" % _ids.setdefault(self.key, len(_ids))

    def size(self):
        t = S.const(0)
        for els, x, c in self.terms:
            n = ind(c) if isinstance(c, SBool) else S.const(1 if c else 0)
            t = t + (sym.Sum(els[0], n) if els else n)
        return t

    def inset(self, x):
        if not self.terms:
            return False
        return bvar(("in", self.id, coerce(x)))

    def cnt(self, x):
        if not self.terms:
            return S.const(0)
        return sym.fn("cnt", self.id, coerce(x), nonneg=True)

    def between(self, i, x):
        return sym.fn("between", self.id, i, coerce(x), nonneg=True)


_ids = {}


def of(x):
    from .coll import parts_of
    return IdxSet(parts_of(x))


class Mask:
    """elementwise condition over an array of symbolic length"""
    _vc_symbolic = True
    __array_ufunc__ = None

    def __init__(self, ps):
        self.ps = ps

    def __invert__(self):
        from .coll import map_parts
        return Mask(map_parts(self.ps, neg))

    def _two(self, o, f):
        return Mask(zip_parts(self.ps, o.ps, f))

    def __and__(self, o):
        return self._two(o, conj)
    __mul__ = __and__

    def __or__(self, o):
        return self._two(o, disj)
    __add__ = __or__

    def parts(self):
        return self.ps


class RangeMask:
    """boolean mask over 0..n-1: x is (not) in R"""
    _vc_symbolic = True
    __array_ufunc__ = None

    def __init__(self, n, R, keep_in):
        self.n, self.R, self.keep_in = n, R, keep_in

    def __invert__(self):
        return RangeMask(self.n, self.R, not self.keep_in)

    def parts(self):
        raise Unsupported("iterating a mask of symbolic length")


def zip_parts(a, b, f):
    from .coll import norm_inner
    if len(a) != len(b):
        raise Unsupported("arrays of different structure")
    out = []
    for p, q in zip(a, b):
        if p[0] != q[0] or p[0] == "sorted" or (p[0] == "s" and (p[1] is not q[1] or len(p[2]) != len(q[2]))) or (p[0] == "c" and len(p[1]) != len(q[1])):
            raise Unsupported("arrays of different structure")
        if p[0] == "c":
            out.append(("c", [f(x, y) for x, y in zip(p[1], q[1])]))
        else:
            alts = []
            for (c1, i1), (c2, i2) in zip(p[2], q[2]):
                if (c1.key() if isinstance(c1, SBool) else c1) != (c2.key() if isinstance(c2, SBool) else c2):
                    raise Unsupported("arrays of different structure")
                alts.append((c1, zip_parts(norm_inner(i1), norm_inner(i2), f)))
            out.append(("s", p[1], alts))
    return out


def select(ps, mask):
    """items of an array where the mask holds, in order"""
    def one(x, m):
        if isinstance(m, SBool):
            return ("s", None, [(m, [("c", [x])])])
        return ("c", [x] if m else [])

    def go(a, b):
        from .coll import norm_inner
        out = []
        if len(a) != len(b):
            raise Unsupported("mask of different structure")
        for p, q in zip(a, b):
            if p[0] != q[0] or (p[0] == "s" and p[1] is not q[1]):
                raise Unsupported("mask of different structure")
            if p[0] == "c":
                out.extend(one(x, m) for x, m in zip(p[1], q[1]))
            else:
                out.append(("s", p[1], [(c, go(norm_inner(i), norm_inner(j))) for (c, i), (_, j) in zip(p[2], q[2])]))
        return out
    return go(ps, mask.parts())


class Desc:
    """the entries of an index list in descending order"""
    _vc_symbolic = True

    def __init__(self, R):
        self.R = R

    def parts(self):
        raise Unsupported("descending index list")


class DescLoop:
    """loop over the entries of R in descending order.  Invariant for every array changed by the body, element by element:
    the value is  x - #{j in R already processed: j < x}  for the value x before the loop."""

    def __init__(self, seq, eng):
        self.R, self.e = seq.R, eng
        self.done = False

    def __iter__(self):
        from .engine import Frame
        e = self.e
        i = sym.fresh("i", nonneg=True)
        self.i = i
        self.initial = None
        pend = [[]]
        n = 0
        while pend:
            n += 1
            if n > 50:
                raise Unsupported("too many paths through a loop body")
            f = Frame(pend.pop(), "loop")
            e.frames.append(f)
            self.started = False
            e.assume(self.R.inset(i))
            yield i
            self._check()
            e.frames.pop()
            pend.extend(f.pending)
        self.done = True

    def enter(self, names, vals, inplace):
        from .coll import SymArray, UNBOUND, Poison
        self.names = names
        if self.initial is None:
            self.initial = dict(zip(names, vals))
            self.hav = {}
        out = []
        for n in names:
            v = self.initial[n]
            if isinstance(v, SymArray):
                h = SymArray([p for p in v.ps])
                h.ps = self._map(v.ps, lambda x, c: self._inv(x, c))
                self.hav[n] = h
                out.append(h)
            elif v is UNBOUND:
                out.append(Poison(n))
            else:
                out.append(Poison(n))
        return tuple(out)

    def _map(self, ps, f, conds=()):
        from .coll import norm_inner
        out = []
        for p in ps:
            if p[0] == "c":
                out.append(("c", [f(x, conds) for x in p[1]]))
            elif p[0] == "s":
                out.append(("s", p[1], [(c, self._map(norm_inner(i), f, conds + ((c,) if c is not True else ()))) for c, i in p[2]]))
            else:
                raise Unsupported("sorted")
        return out

    def _facts(self, x, conds):
        e, i, R = self.e, self.i, self.R
        x = coerce(x)
        b = R.between(i, x)
        lt = rel("lt", i, x)
        e.assume(disj(neg(lt), rel("le", b, x - 1 - i)))
        e.assume(disj(lt, rel("eq", b, S.const(0))))
        inx = R.inset(x)
        if inx is False:
            return b
        nk = neg(inx).key()
        ks = set()
        for c in conds:
            for y in (c.args if isinstance(c, SBool) and c.op == "and" else (c,)):
                ks.add(y.key() if isinstance(y, SBool) else y)
        if nk in ks:
            e.assume(neg(rel("eq", i, x)))      # x is not in R, i is
        return b

    def _inv(self, x, conds):
        b = self._facts(x, conds)
        return coerce(x) - b

    def leave(self, vals):
        self.left = dict(zip(self.names, vals))

    def abort(self, exc):
        pass

    def _check(self):
        from .coll import SymArray
        e = self.e
        self.changed = getattr(self, "changed", set())
        for n in self.names:
            v0, v = self.initial[n], self.left[n]
            if not isinstance(v0, SymArray):
                continue
            if not isinstance(v, SymArray):
                raise Unsupported(f"loop variable {n} changes type")
            bad = []

            def chk(x, got):
                x = coerce(x)
                want = x - self.R.between(self.i, x) - ind(rel("lt", self.i, x))
                d = coerce(got) - want
                if not _zero(e, d):
                    bad.append((x, got))
            zip_parts(v0.ps, v.ps, chk)
            if bad:
                raise Unsupported(f"loop invariant (value = x - number of removed indices below x) not preserved for {n}: {bad[0][1]!r}")
            self.changed.add(n)
            e._record(f"loop invariant preserved ({n})", "discharged", "z3", 0.0)

    def result(self, names, vals):
        from .coll import SymArray, Poison
        out = []
        for n in names:
            v0 = self.initial[n] if self.initial else None
            if isinstance(v0, SymArray):
                r = self._map(v0.ps, lambda x, c: coerce(x) - self.R.cnt(x))
                h = self.left[n]
                h.ps = r
                out.append(h)
            else:
                out.append(Poison(n))
        return tuple(out)


def _zero(e, d):
    """d == 0 under the path condition, by case split on its indicator conditions"""
    if not d.p:
        return True
    conds = {}
    for a in d.atoms():
        if a.kind == "ind":
            conds[a.id] = a.args[0]
    goals = []
    for v in itertools.product((False, True), repeat=len(conds)):
        env = dict(zip(conds, v))
        t = S.const(0)
        for m, c in d.p.items():
            x = S.const(c)
            for i, ex in m:
                x = x * (S.const(1 if env[i] else 0) if i in env else S.of(sym.ATOMS[i]) ** ex)
            t = t + x
        cs = [conds[i] if env[i] else neg(conds[i]) for i in env]
        goals.append(disj(*[neg(c) for c in cs], rel("eq", t, S.const(0))))
    e.in_proof += 1
    try:
        for g in goals:
            if g is True:
                continue
            if g is False or e._z3(e.pc() + [neg(g)], e.z3_ms) != "unsat":
                return False
        return True
    finally:
        e.in_proof -= 1


# ------------------------------------------------------------------ queues consumed by a loop over range(n)
class Vec:
    """numeric vector of symbolic length: element k is fn(name, k)"""
    _vc_symbolic = True

    def __init__(self, name, n):
        self.name, self.n = name, n

    @property
    def shape(self):
        return (self.n,)

    def at(self, k):
        return sym.fn(self.name, coerce(k))

    def copy(self):
        return self

    def reshape(self, *a):
        return self

    ravel = flatten = tolist = copy

    def parts(self):
        raise Unsupported("parts of a solver result of symbolic length")

    def _vc_list(self):
        return VecQueue(self)


class VecQueue:
    """list(vector): consumed from the front"""
    _vc_symbolic = True

    def __init__(self, v):
        self.v = v

    def parts(self):
        raise Unsupported("parts of a solver result of symbolic length")

    def pop(self, k=-1):
        L = _rangeloop()
        if k != 0 or L is None:
            raise Unsupported("pop from a vector of symbolic length")
        return L.popvec(self)

    def __iter__(self):
        raise Unsupported("iteration over an array of symbolic size")

    def __getitem__(self, k):
        L = _rangeloop()
        if k != 0 or L is None:
            raise Unsupported("indexing a vector of symbolic length")
        return L.headvec(self)


def _rangeloop():
    e = sym.ENGINE
    return e.rloops[-1] if e is not None and getattr(e, "rloops", None) else None


class PerIndex:
    """array over 0..n-1: element i is f(i); shape is only re-labelled"""
    _vc_symbolic = True

    def __init__(self, n, f, shape):
        self.n, self.f, self.shape = n, f, shape

    def reshape(self, *a):
        sh = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
        t = S.const(1)
        for x in sh:
            if isinstance(x, int) and x == -1:
                raise Unsupported("reshape -1")
            t = t * x
        if (t - self.n).p:
            raise ValueError("cannot reshape array")
        return PerIndex(self.n, self.f, tuple(sh))

    def copy(self):
        return self

    @property
    def T(self):
        return PerIndex(self.n, self.f, self.shape[::-1])

    def parts(self):
        raise Unsupported("parts of an array of symbolic length")


class RangeLoop:
    """for i in range(n) with n symbolic, the body appending to new lists and consuming a sorted index list R (all entries below n)
    and a vector from the front.  Invariant: before iteration i, R has exactly its entries >= i left, and the vector has been
    popped i - cnt(R, i) times."""

    def __init__(self, seq, eng):
        self.get = None
        if isinstance(seq, LVec):        # over the elements of a vector: over its indices
            from .coll import SymRange
            self.get, seq = seq.at, SymRange(S.const(0), coerce(seq.n))
        self.seq, self.e = seq, eng
        if seq.start.p:
            raise Unsupported("symbolic range that does not start at 0")
        self.outs = {}
        self.rows, self.state = {}, {}
        self.consumed = False

    def __iter__(self):
        from .engine import Frame
        e = self.e
        i = sym.fn("idx", sym.elem("range"), nonneg=True)
        self.i = i
        e.rloops = getattr(e, "rloops", [])
        pend = [[]]
        self.paths = []
        n = 0
        while pend:
            n += 1
            if n > 50:
                raise Unsupported("too many paths through a loop body")
            f = Frame(pend.pop(), "loop")
            e.frames.append(f)
            e.rloops.append(self)
            self.q, self.v, self.app = {}, {}, {}
            try:
                e.assume(rel("lt", i, self.seq.stop))
                yield i if self.get is None else self.get(i)
                self._check()
            finally:
                e.rloops.pop()
                e.frames.pop()
            self.consumed = self.consumed or bool(self.q or self.v)
            self.paths.append((conj(*f.pc) if f.pc else True, self.app))
            pend.extend(f.pending)
        lists = {}
        for c, app in self.paths:
            for k, (lst, xs) in app.items():
                lists[k] = lst
        for k, lst in lists.items():
            alts = []
            for c, app in self.paths:
                if k not in app or len(app[k][1]) != 1:
                    raise Unsupported("list that does not get exactly one entry per index")
                alts.append((c, app[k][1][0]))
            lst._perindex(self.seq.stop, i, alts)
            lst._plain = not self.consumed

    # -- queues
    def _idx(self, lst):
        k = id(lst)
        if k not in self.q:
            R = IdxSet(lst._sym[0][1])
            e, i = self.e, self.i
            ne, inn = bvar(("more", R.id, i)), R.inset(i)
            e.assume(disj(neg(inn), ne))
            head = sym.fn("head", R.id, i, nonneg=True)
            e.assume(disj(neg(ne), rel("le", i, head)))
            e.assume(disj(neg(ne), neg(rel("eq", head, i)), inn))
            e.assume(disj(neg(inn), rel("eq", head, i)))
            self.q[k] = [lst, R, 0, ne, head]
        return self.q[k]

    def nonempty(self, lst):
        q = self._idx(lst)
        if q[2]:
            raise Unsupported("test of a consumed list")
        return self.e.decide(q[3])

    def head(self, lst):
        q = self._idx(lst)
        if q[2]:
            raise Unsupported("head of a consumed list")
        if not self.e.decide(q[3]):
            raise IndexError("list index out of range")
        return q[4]

    def poplist(self, lst):
        q = self._idx(lst)
        h = self.head(lst)
        q[2] += 1
        return h

    def popvec(self, vq):
        x = self.headvec(vq)
        self.v[id(vq)][1] += 1
        return x

    def headvec(self, vq):
        d = self.v.setdefault(id(vq), [vq, 0])
        R = next(iter(self.q.values()))[1] if self.q else IdxSet([])
        return vq.v.at(self.i - R.cnt(self.i) + d[1])

    def append(self, lst, xs):
        d = self.app.setdefault(id(lst), (lst, []))
        d[1].extend(xs)

    def _check(self):
        e = self.e
        e.in_proof += 1
        try:
            if len(self.q) > 1 or len(self.v) > 1:
                raise Unsupported("several queues in one loop")
            if not self.q and not self.v:
                return
            q = next(iter(self.q.values())) if self.q else (None, IdxSet([]), 0)
            inn = q[1].inset(self.i)
            nv = next(iter(self.v.values()))[1] if self.v else 0
            goals = [inn if q[2] == 1 else neg(inn) if q[2] == 0 else False, neg(inn) if nv == 1 else inn if nv == 0 else False]
            for g in goals:
                if g is True:
                    continue
                if g is False or e._z3(e.pc() + [neg(g)], e.z3_ms) != "unsat":
                    raise Unsupported("loop invariant over the consumed lists is not preserved")
            e._record("loop invariant over the consumed lists preserved", "discharged", "z3", 0.0)
        finally:
            e.in_proof -= 1

    # -- plain loop variables are not carried
    def enter(self, names, vals, inplace):
        from .coll import Poison
        from . import linop
        self.names = names
        out = []
        for n, v in zip(names, vals):
            if n in self.rows or isinstance(v, linop.FRows):
                if n not in self.rows:
                    self.rows[n] = (v, [])
                    self.state[n] = linop.havoc(v, self.i)
                out.append(self.state[n])
            else:
                out.append(v if isinstance(v, (list,)) else Poison(n))
        return tuple(out)

    def leave(self, vals):
        for n, v in zip(self.names, vals):
            if n in self.rows:
                h = self.state[n]
                if getattr(v, "name", None) != h.name or len(v.ext) != 1 or v.off:
                    raise Unsupported("row stack that does not get exactly one row per iteration")
                self.rows[n][1].append((h, v.ext[0]))

    def abort(self, exc):
        from .sym import Unsupported as U
        if isinstance(exc, U) or not isinstance(exc, Exception):
            return
        raise U(f"exception inside a symbolic loop: {type(exc).__name__}: {exc}") from exc

    def result(self, names, vals):
        from . import linop
        return tuple(linop.generalise(self.rows[n][0], self.state[n], self.i, self.seq.stop, self.rows[n][1]) if n in self.rows else v for n, v in zip(names, vals))


# ------------------------------------------------------------------ vectors over all degrees of freedom
class LVec:
    """numeric vector of symbolic length n: element i is f(i)"""
    _vc_symbolic = True
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, n, f):
        self.n, self.f = n, f

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def at(self, i):
        return self.f(coerce(i))

    def __iter__(self):
        raise Unsupported("iteration over a vector of symbolic length")

    def __len__(self):
        raise Unsupported("length of a vector of symbolic length as an integer")

    def __bool__(self):
        raise Unsupported("truth value of a vector of symbolic length")

    def copy(self):
        return self

    def reshape(self, *a):
        sh = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
        if len(sh) == 1:
            if (isinstance(sh[0], int) and sh[0] == -1) or not (coerce(sh[0]) - self.n).p or sym.ENGINE.decide(rel("eq", coerce(sh[0]), coerce(self.n))):
                return self
            raise ValueError("cannot reshape array")
        raise Unsupported("reshape of a vector of symbolic length")

    def ravel(self, *a):
        return self

    flatten = squeeze = astype = ravel

    def _bin(self, o, g):
        o = as_lvec(o)
        if o is None:
            return NotImplemented
        if isinstance(o, S):
            return LVec(self.n, lambda i: g(self.f(i), o))
        if (coerce(o.n) - self.n).p:
            raise ValueError("operands could not be broadcast together")
        return LVec(self.n, lambda i: g(self.f(i), o.f(i)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __neg__(self):
        return LVec(self.n, lambda i: -self.f(i))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __pow__(self, o):
        return LVec(self.n, lambda i: self.f(i) ** o)

    def map(self, g):
        return LVec(self.n, lambda i: g(self.f(i)))

    def __getitem__(self, k):
        import numpy as _np
        from .coll import SList
        if isinstance(k, slice):
            lo = coerce(0 if k.start is None else k.start)
            if k.start is None and k.stop is None and k.step is None:
                return self
            if k.step not in (None, 1) or k.stop is None:
                raise Unsupported("slice of a vector of symbolic length")
            w = coerce(k.stop) - lo
            if not w.isconst() or w.cval() < 0:
                raise Unsupported("slice of a vector of symbolic length")
            return _vals([self.at(lo + j) for j in range(int(w.cval()))])
        if isinstance(k, SList):
            k = k.concrete_list()
        if isinstance(k, (list, _np.ndarray)):
            return _vals([self.at(x) for x in k])
        if isinstance(k, tuple):
            raise IndexError("too many indices for array")
        return self.at(k)

    def __setitem__(self, k, v):
        """x[~isin(arange(n), L)] = v"""
        if not isinstance(k, RangeMask) or k.keep_in or (coerce(k.n) - self.n).p:
            raise Unsupported("assignment to a vector of symbolic length")
        R, old = k.R, self.f
        v = as_lvec(v)
        if isinstance(v, LVec) and (coerce(v.n) - (coerce(self.n) - R.size())).p:
            raise ValueError("NumPy boolean array indexing assignment cannot assign")
        g = v.f if isinstance(v, LVec) else lambda i: v
        self.f = lambda i: sym.ite(R.inset(i), old(i), g(i - R.cnt(i))) if R.inset(i) is not False else g(i)

    def parts(self):
        raise Unsupported("parts of a vector of symbolic length")


def _vals(xs):
    import numpy as _np
    a = _np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def as_lvec(o):
    if isinstance(o, LVec):
        return o
    c = coerce(o)
    if c is not None:
        return c
    if getattr(o, "_is_omat", False) and o.format == "dense":
        if isinstance(o.shape[1], int) and o.shape[1] == 1:
            return LVec(o.shape[0], lambda i: o.bilinear(lambda r: ind(rel("eq", coerce(r), i)), lambda c: S.const(1)))
    return None


def per_index_vec(pi):
    """the vector of the entries a loop over range(n) appended, one per index (nothing consumed on the way)"""
    from .engine import subst, _hasbool
    n, i, alts = pi
    if not all(isinstance(coerce(x), S) for _, x in alts) or (len(alts) > 1 and any(isinstance(c, sym.SBool) and _hasbool(c) for c, _ in alts)):
        return None
    ids = [a.id for m in i.p for a in (sym.ATOMS[m[0][0]],)] if hasattr(i, "p") else []
    if len(ids) != 1:
        return None
    v = S.const(0)
    for c, x in alts:
        v = v + (coerce(x) if c is True or len(alts) == 1 else ind(c) * coerce(x))
    return LVec(n, lambda k: subst(v, {ids[0]: coerce(k)}))


class RStack:
    """np.vstack of vectors of one symbolic length"""
    _vc_symbolic = True
    __array_ufunc__ = None

    def __init__(self, rows):
        self.rows = rows
        n = coerce(rows[0].n)
        for r in rows[1:]:
            if (coerce(r.n) - n).p and not sym.ENGINE.decide(rel("eq", coerce(r.n), n)):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        self.shape = (len(rows), rows[0].n)

    def __iter__(self):
        raise Unsupported("iteration over an array of symbolic size")

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            r = self.rows[int(k[0])]
            if isinstance(k[1], slice) and k[1] == slice(None):
                return r
            return r.at(k[1])
        if isinstance(k, (int, S)):
            return self.rows[int(k)]
        raise Unsupported("index of stacked vectors")

    def __len__(self):
        return len(self.rows)


class Cols:
    """n x k matrix whose column m is the vector  fn(name, m, .)"""
    _vc_symbolic = True

    def __init__(self, name, n, k):
        self.name, self.n, self.k = name, n, k

    @property
    def shape(self):
        return (self.n, self.k)

    @property
    def T(self):
        return GRows(self.name, self.n, self.k)

    def transpose(self, *a):
        return self.T

    def copy(self):
        return self

    def parts(self):
        raise Unsupported("parts of a matrix of symbolic size")


class GRows:
    """a stored result: one row of all degrees of freedom per step (or mode)"""
    _vc_symbolic = True

    def __init__(self, name, n, rows=None):
        self.name, self.n, self.rows = name, n, rows

    @property
    def shape(self):
        return (self.rows if self.rows is not None else sym.fn("rows", self.name, pos=True), self.n)

    def copy(self):
        return self

    def __iter__(self):
        raise Unsupported("iteration over an array of symbolic size")

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) != 2:
                raise IndexError("too many indices for array")
            r, c = k
        else:
            r, c = k, slice(None)
        if isinstance(r, slice):
            raise Unsupported("slice of the rows of a stored result")
        v = LVec(self.n, lambda i: sym.fn(self.name, coerce(r), i))
        return v[c]

    @property
    def T(self):
        return Cols(self.name, self.n, self.rows)

    def transpose(self, *a):
        return self.T

    def parts(self):
        raise Unsupported("parts of a stored result")
