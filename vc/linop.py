"""Formal linear algebra over a space of arbitrary dimension: operators are combinations of named operators, vectors are
combinations of (operator, atom) pairs with exact scalar coefficients; row stacks grow by one row per iteration of a loop
over a symbolic range (invariant: before iteration i the stack has c + i rows, c those it had before the loop)."""
from . import sym
from .sym import S, Unsupported, coerce, rel, neg


def key(x):
    x = coerce(x)
    return frozenset(x.p.items())


def _scalar(x):
    if isinstance(x, (bool, FVec, FOp)) or x is None:
        return None
    try:
        return coerce(x)
    except Exception:
        return None


def _comb(a, b, s):
    d = dict(a)
    for k, v in b.items():
        t = d.get(k)
        t = v * s if t is None else t + v * s
        if t.p:
            d[k] = t
        else:
            d.pop(k, None)
    return d


class FOp:
    """square operator of size m: combination of named operators"""
    _vc_symbolic = True
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __init__(self, terms, m, fmt="csr"):
        self.terms, self.m, self.format = terms, m, fmt

    @property
    def shape(self):
        return (self.m, self.m)

    def _as(self, fmt):
        return FOp(self.terms, self.m, fmt)

    def tocoo(self, *a, **k):
        return self._as("coo")

    def tocsr(self, *a, **k):
        return self._as("csr")

    def tocsc(self, *a, **k):
        return self._as("csc")

    def toarray(self):
        return self._as("dense")
    todense = toarray

    def copy(self):
        return self

    def _lin(self, o, s):
        if isinstance(o, FOp):
            if (coerce(self.m) - o.m).p:
                raise ValueError("inconsistent shapes")
            return FOp(_comb(self.terms, o.terms, S.const(s)), self.m, "dense" if "dense" in (self.format, o.format) else "csr")
        z = _scalar(o)
        if z is not None and not z.p:
            return self
        raise Unsupported("adding a number to a matrix")

    def __add__(self, o):
        return self._lin(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, -1)

    def __rsub__(self, o):
        return (-self)._lin(o, 1)

    def __neg__(self):
        return self * -1

    def __mul__(self, o):
        if isinstance(o, FVec):
            if self.format == "dense":
                raise Unsupported("elementwise product")
            return self.dot(o)
        s = _scalar(o)
        if s is None:
            raise Unsupported("product of matrices")
        return FOp({k: v * s for k, v in self.terms.items() if (v * s).p}, self.m, self.format)

    def __rmul__(self, o):
        s = _scalar(o)
        if s is None:
            raise Unsupported("product of matrices")
        return self * s

    def __truediv__(self, o):
        s = _scalar(o)
        if s is None:
            raise Unsupported("division of matrices")
        return self * (S.const(1) / s)

    def dot(self, v):
        if not isinstance(v, FVec):
            raise Unsupported("product of a matrix and " + type(v).__name__)
        if v.kind == "row":
            raise ValueError("dimension mismatch")
        if (coerce(v.m) - self.m).p:
            raise ValueError("dimension mismatch")
        d = {}
        for a, x in self.terms.items():
            for (op, at), y in v.terms.items():
                if op:
                    raise Unsupported("repeated application of operators")
                d = _comb(d, {(a, at): x}, y)
        return FVec(d, v.m, v.kind)
    __matmul__ = dot

    def parts(self):
        raise Unsupported("parts of an operator")


class FVec:
    """vector of length m: combination of (operator, atom)"""
    _vc_symbolic = True
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __init__(self, terms, m, kind="flat"):
        self.terms, self.m, self.kind = terms, m, kind

    @staticmethod
    def atom(a, m, kind="flat"):
        return FVec({("", a): S.const(1)}, m, kind)

    @property
    def shape(self):
        return {"flat": (self.m,), "col": (self.m, 1), "row": (1, self.m)}[self.kind]

    @property
    def size(self):
        return self.m

    def toarray(self):
        return self

    def copy(self):
        return self

    def astype(self, *a):
        return self

    def ravel(self, *a):
        return FVec(self.terms, self.m, "flat")
    flatten = ravel

    @property
    def T(self):
        return FVec(self.terms, self.m, {"flat": "flat", "col": "row", "row": "col"}[self.kind])

    def transpose(self, *a):
        return self.T

    def reshape(self, *a):
        sh = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
        t, free = S.const(1), 0
        for x in sh:
            if isinstance(x, int) and x == -1:
                free += 1
            else:
                t = t * coerce(x)
        one = lambda x: isinstance(x, int) and x == 1
        kind = "flat" if len(sh) == 1 else "row" if len(sh) == 2 and one(sh[0]) else "col" if len(sh) == 2 and one(sh[1]) else None
        if kind is None or free > 1:
            raise Unsupported("reshape of a vector")
        if free:
            if (t - 1).p:
                raise Unsupported("reshape of a vector")
        elif (t - self.m).p and not bool(rel("eq", t, coerce(self.m))):
            raise ValueError("cannot reshape array")
        return FVec(self.terms, self.m, kind)

    def _lin(self, o, s):
        z = _scalar(o)
        if z is not None and not z.p:
            return self
        if not isinstance(o, FVec):
            raise Unsupported("sum of a vector and something else")
        k = {self.kind, o.kind}
        if "col" in k and len(k) > 1:
            raise Unsupported("broadcast of a column and a row")
        if (coerce(self.m) - o.m).p:
            raise ValueError("operands could not be broadcast together")
        return FVec(_comb(self.terms, o.terms, S.const(s)), self.m, self.kind if len(k) == 1 else "row")

    def __add__(self, o):
        return self._lin(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, -1)

    def __rsub__(self, o):
        return (self * -1)._lin(o, 1)

    def __neg__(self):
        return self * -1

    def __mul__(self, o):
        s = _scalar(o)
        if s is None:
            raise Unsupported("product of vectors")
        return FVec({k: v * s for k, v in self.terms.items() if (v * s).p}, self.m, self.kind)
    __rmul__ = __mul__

    def __truediv__(self, o):
        s = _scalar(o)
        if s is None:
            raise Unsupported("division of vectors")
        return self * (S.const(1) / s)

    def __iter__(self):
        raise Unsupported("iteration over an array of symbolic size")

    def __getitem__(self, k):
        if self.kind == "row" and (k == 0 or k == (0, slice(None))):
            return FVec(self.terms, self.m)
        if self.kind == "col" and k == (slice(None), 0):
            return FVec(self.terms, self.m)
        if k in (slice(None), Ellipsis):
            return self
        raise Unsupported("component of a vector")

    def parts(self):
        raise Unsupported("parts of a vector")


class FRows:
    """stack of row vectors of length m: rows (concrete, first), or those of a loop state, plus appended ones"""
    _vc_symbolic = True
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __init__(self, m, rows=(), name=None, count=None, ext=(), rec=None, off=0):
        self.m, self.rows, self.name, self.n0, self.ext, self.rec, self.off = m, list(rows), name, count, list(ext), rec, off

    def count(self):
        return (coerce(self.n0) if self.n0 is not None else S.const(len(self.rows))) + len(self.ext) - self.off

    @property
    def shape(self):
        return (self.count(), self.m)

    def copy(self):
        return FRows(self.m, self.rows, self.name, self.n0, self.ext, self.rec, self.off)

    def astype(self, *a):
        return self.copy()

    def _index(self, r):
        n = self.count()
        r = coerce(r)
        if r is None:
            raise Unsupported("row index")
        if bool(rel("lt", r, S.const(0))):
            r = r + n
        if not bool(rel("lt", r, n)):
            raise IndexError("index out of bounds")
        return r + self.off

    def row(self, r):
        """row of (checked, absolute) index r"""
        base = coerce(self.n0) if self.n0 is not None else S.const(len(self.rows))
        d = r - base
        if d.isconst() and 0 <= d.cval() < len(self.ext):
            return self.ext[int(d.cval())]
        if self.n0 is None:
            if not r.isconst():
                raise Unsupported("row of symbolic index")
            return self.rows[int(r.cval())]
        if self.rec is not None:
            raise Unsupported("row of a recursively defined stack")
        if not bool(rel("lt", r, base)):
            raise Unsupported("row of symbolic index")
        return FVec.atom(("row", self.name, key(r)), self.m)

    def _split(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], slice) and k[1] == slice(None):
            return k[0]
        if isinstance(k, tuple):
            raise Unsupported("components of a row stack")
        return k

    def __iter__(self):
        raise Unsupported("iteration over an array of symbolic size")

    def __getitem__(self, k):
        k = self._split(k)
        if isinstance(k, slice):
            if k.stop is not None or k.step not in (None, 1) or not (k.start is None or isinstance(k.start, int) and k.start >= 0):
                raise Unsupported("slice of a row stack")
            r = self.copy()
            r.off += k.start or 0
            return r
        return self.row(self._index(k))

    def __setitem__(self, k, v):
        k = self._split(k)
        if isinstance(k, slice) or self.n0 is not None or self.rec is not None or self.off:
            raise Unsupported("store into a row stack")
        r = self._index(k)
        if not r.isconst():
            raise Unsupported("store into a row of symbolic index")
        r = int(r.cval())
        z = _scalar(v)
        if z is not None and not z.p:
            v = FVec({}, self.m)
        if not isinstance(v, FVec) or v.kind == "col":
            raise Unsupported("store into a row stack")
        v = FVec(v.terms, v.m)
        if r < len(self.rows):
            self.rows[r] = v
        else:
            self.ext[r - len(self.rows)] = v

    def append(self, v):
        if not isinstance(v, FVec) or v.kind == "col" or self.off:
            raise Unsupported("appending to a row stack")
        if (coerce(v.m) - self.m).p:
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        r = self.copy()
        r.ext.append(FVec(v.terms, v.m))
        return r

    def parts(self):
        raise Unsupported("parts of a row stack")


def vstack(xs):
    xs = list(xs)
    if not isinstance(xs[0], FRows):
        if all(isinstance(x, FVec) for x in xs) and xs:
            r = FRows(xs[0].m)
            for x in xs:
                r = r.append(x)
            return FRows(r.m, r.ext)
        raise Unsupported("vstack")
    r = xs[0]
    for x in xs[1:]:
        r = r.append(x)
    return r


_n = [0]


def havoc(v, i):
    """state of the stack before iteration i"""
    if v.n0 is not None or v.rec is not None or v.off:
        raise Unsupported("row stack of unknown history in a loop")
    _n[0] += 1
    c = len(v.rows) + len(v.ext)
    return FRows(v.m, name="stack%d" % _n[0], count=S.const(c) + i)


def generalise(init, state, i, stop, alts):
    """after the loop: rows of init, then for every i < stop the row appended at iteration i"""
    rows = init.rows + init.ext
    return FRows(init.m, name=state.name, count=S.const(len(rows)) + stop, rec={"init": rows, "i": i, "rows": alts, "stop": stop})
