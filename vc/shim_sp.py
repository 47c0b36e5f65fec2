"""scipy.sparse / scipy.sparse.linalg / scipy.spatial.transform as seen by the verified code:
assumed contracts of the library primitives, over exact scalars."""
import builtins
import numpy as _np
from . import sym, shim_np
from .sym import S, SBool, Unsupported, coerce, neg, rel
from .coll import SList, SymArray, is_symbolic, parts_of, norm_inner, Poison


def _dense(x):
    return shim_np._arr(x)


class SMat:
    _is_smat = True
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, A, fmt, coords=None):
        self.A_ = A
        self.format = fmt
        self._coords = coords       # explicit storage order (coo from triplets), list of (r, c, v)
        if fmt == "coo":
            ent = coords if coords is not None else self._nz()
            self.row = _np.array([r for r, c, v in ent], dtype=int)
            self.col = _np.array([c for r, c, v in ent], dtype=int)
            d = _np.empty(len(ent), dtype=object)
            for i, (r, c, v) in enumerate(ent):
                d[i] = v
            self.data = d

    def _arr(self):
        if self.format == "coo":
            a = shim_np.zeros(self.A_.shape)
            for r, c, v in zip(self.row, self.col, self.data):
                a[r, c] = a[r, c] + v
            return a
        return self.A_

    def _nz(self):
        return [(r, c, self.A_[r, c]) for r in range(self.A_.shape[0]) for c in range(self.A_.shape[1])
                if coerce(self.A_[r, c]).p]

    @property
    def shape(self):
        return self.A_.shape

    @property
    def ndim(self):
        return 2

    @property
    def nnz(self):
        return len(self.data) if self.format == "coo" else len(self._nz())

    @property
    def dtype(self):
        return _np.dtype(float)

    def __getattr__(self, n):
        if n == "data" and self.format != "coo":
            return _np.array([v for _, _, v in self._nz()] or [], dtype=object)
        if n in ("indices",):
            raise Unsupported("csr internals")
        raise AttributeError(f"'{self.format}_matrix' object has no attribute '{n}'")

    def toarray(self):
        return self._arr().copy()

    @property
    def A(self):
        raise AttributeError("A")

    def todense(self):
        return Dense(self._arr().copy())

    def tocsr(self, copy=False):
        return SMat(self._arr().copy(), "csr")

    def tocsc(self, copy=False):
        return SMat(self._arr().copy(), "csc")

    def tolil(self):
        return SMat(self._arr().copy(), "lil")

    def tocoo(self, copy=False):
        if self.format == "coo":
            return self if not copy else self.copy()
        if self.format == "csc":
            a = self._arr()
            return SMat(a.copy(), "coo", [(r, c, a[r, c]) for c in range(a.shape[1]) for r in range(a.shape[0]) if coerce(a[r, c]).p])
        return SMat(self._arr().copy(), "coo")

    def asformat(self, f):
        return getattr(self, "to" + f)()

    def copy(self):
        if self.format == "coo":
            return SMat(self.A_.copy(), "coo", [(int(r), int(c), v) for r, c, v in zip(self.row, self.col, self.data)])
        return SMat(self.A_.copy(), self.format)

    def transpose(self):
        f = {"csr": "csc", "csc": "csr"}.get(self.format, self.format)
        if self.format == "coo":
            return SMat(self.A_.T.copy(), "coo", [(int(c), int(r), v) for r, c, v in zip(self.row, self.col, self.data)])
        return SMat(self._arr().T.copy(), f)

    @property
    def T(self):
        return self.transpose()

    def dot(self, o):
        return self * o

    def __mul__(self, o):
        c = coerce(o) if not isinstance(o, (SMat, _np.ndarray)) else None
        if c is not None:
            a = self._arr().copy()
            for k, v in enumerate(a.ravel()):
                a.reshape(-1)[k] = v * c
            return SMat(a, "csr" if self.format in ("dia", "coo") else self.format)
        if isinstance(o, SMat):
            if self.shape[1] != o.shape[0]:
                raise ValueError("dimension mismatch")
            return SMat(_matmul(self._arr(), o._arr()), "csr" if self.format != "csc" else "csc")
        if isinstance(o, (list, tuple)):
            o = _dense(o)
        if isinstance(o, _np.ndarray):
            if o.ndim == 0:
                return self * coerce(o.item())
            if self.shape[1] != o.shape[0]:
                raise ValueError("dimension mismatch")
            return _matmul(self._arr(), o)
        if hasattr(o, "_is_omat"):
            return NotImplemented
        return NotImplemented

    __matmul__ = __mul__

    def __rmul__(self, o):
        c = coerce(o) if not isinstance(o, _np.ndarray) else None
        if c is not None:
            return self * c
        if isinstance(o, _np.ndarray):
            return _matmul(o, self._arr())
        return NotImplemented

    def __rmatmul__(self, o):
        return _matmul(o, self._arr())

    def multiply(self, o):
        b = o._arr() if isinstance(o, SMat) else _dense(o)
        return SMat(self._arr() * b, self.format)

    def __neg__(self):
        return self * S.const(-1)

    def _ew(self, o, f):
        if isinstance(o, SMat):
            if o.shape != self.shape:
                raise ValueError("inconsistent shapes")
            return SMat(f(self._arr(), o._arr()), "csr" if self.format != "csc" else "csc")
        if isinstance(o, _np.ndarray):
            return Dense(f(self._arr(), o))
        if coerce(o) is not None and coerce(o).isconst() and coerce(o).cval() == 0:
            return self.copy()
        raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")

    def __add__(self, o):
        return self._ew(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._ew(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._ew(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ew(o, lambda a, b: b - a)

    def __truediv__(self, o):
        c = coerce(o)
        if c is None:
            raise Unsupported("sparse division by an array")
        a = self._arr().copy()
        for k, v in enumerate(a.ravel()):
            a.reshape(-1)[k] = v / c
        return SMat(a, "csr" if self.format in ("dia", "coo") else self.format)

    def diagonal(self, k=0):
        return _np.diag(self._arr(), k).copy()

    def sum(self, axis=None):
        return self._arr().sum(axis=axis)

    def __iter__(self):
        return iter([self[i, :] for i in range(int(self.shape[0]))])

    def __getitem__(self, k):
        if self.format in ("coo", "dia"):
            raise TypeError(f"'{self.format}_matrix' object is not subscriptable")
        a = self._arr()
        if not isinstance(k, tuple):
            if isinstance(k, _np.ndarray) and k.dtype == bool or isinstance(k, (slice, list, _np.ndarray)):
                r = a[k]
                return SMat(r.copy(), self.format)
            return SMat(a[[k], :].copy(), self.format)
        i, j = k
        ii = isinstance(i, (int, _np.integer))
        jj = isinstance(j, (int, _np.integer))
        if isinstance(i, S):
            i = i.__index__()
            ii = True
        if isinstance(j, S):
            j = j.__index__()
            jj = True
        if ii and jj:
            return a[i, j]
        if ii:
            return SMat(a[[i], :][:, j].copy().reshape(1, -1), self.format)
        if jj:
            return SMat(a[:, [j]][i].copy().reshape(-1, 1), self.format)
        r = a[i]
        return SMat(r[:, j].copy() if not (isinstance(i, _np.ndarray) and i.ndim == 2) else a[i, j].copy(), self.format)

    def __setitem__(self, k, v):
        if self.format in ("coo", "dia"):
            raise TypeError(f"'{self.format}_matrix' object does not support item assignment")
        if isinstance(v, SMat):
            v = v._arr()
        if isinstance(v, _np.ndarray):
            self.A_[k] = shim_np.obj(v)
        else:
            self.A_[k] = coerce(v)

    def eliminate_zeros(self):
        return None

    def sum_duplicates(self):
        return None

    def setdiag(self, v):
        for i in range(min(self.shape)):
            self.A_[i, i] = coerce(v[i] if hasattr(v, "__len__") else v)

    def _vc_values(self):
        return list(self._arr().ravel())

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __iter__(self):
        raise Unsupported("iteration over a sparse matrix")


class Dense(_np.ndarray):
    """np.matrix-like result of todense(): `*` is a matrix product"""
    def __new__(cls, a):
        return _np.asarray(a, dtype=object).view(cls)

    def __mul__(self, o):
        if isinstance(o, (SMat, _np.ndarray)):
            return Dense(_matmul(_np.asarray(self), o._arr() if isinstance(o, SMat) else _np.asarray(o)))
        return Dense(_np.asarray(self) * o)


def _matmul(a, b):
    """object product that skips exact zeros"""
    a = _np.asarray(a, dtype=object)
    b2 = _np.asarray(b, dtype=object)
    one = b2.ndim == 1
    if one:
        b2 = b2.reshape(-1, 1)
    left1 = a.ndim == 1
    if left1:
        a = a.reshape(1, -1)
    n, m = a.shape
    if b2.shape[0] != m:
        raise ValueError("dimension mismatch")
    rows = [[(k, coerce(a[i, k])) for k in range(m)] for i in range(n)]
    rows = [[(k, v) for k, v in r if v.p] for r in rows]
    bz = [[coerce(x) for x in b2[k]] for k in range(m)]
    o = _np.empty((n, b2.shape[1]), dtype=object)
    for i in range(n):
        for j in range(b2.shape[1]):
            t = S({})
            for k, v in rows[i]:
                w = bz[k][j]
                if w.p:
                    t = t + v * w
            o[i, j] = t
    if one:
        o = o.reshape(n)
    if left1:
        o = o.reshape(o.shape[1:]) if not one else o[0]
    return o


class OMat:
    """sparse matrix of symbolic size given by (data, (row, col)) sequences; entries with the
    same position add up.  Observed through the bilinear form  u^T M v."""
    _is_omat = True
    _is_smat = True
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, trip, shape, fmt):
        self.trip = trip            # list of (scale, data parts, row parts, col parts)
        self.shape = shape
        self.format = fmt

    def tocsr(self, *a):
        return OMat(self.trip, self.shape, "csr")

    def tocsc(self, *a):
        return OMat(self.trip, self.shape, "csc")

    def tocoo(self, *a):
        return OMat(self.trip, self.shape, "coo")

    def copy(self):
        return OMat(list(self.trip), self.shape, self.format)

    def transpose(self):
        return OMat([(s, d, c, r) for s, d, r, c in self.trip], (self.shape[1], self.shape[0]), self.format)

    @property
    def T(self):
        return self.transpose()

    def __add__(self, o):
        if isinstance(o, OMat):
            return OMat(self.trip + o.trip, self.shape, "csr")
        raise Unsupported("sum of sparse matrices of symbolic size")

    __radd__ = __add__

    def __sub__(self, o):
        return self + o * S.const(-1)

    def dot(self, o):
        from . import idxset
        v = idxset.as_lvec(o)
        if not isinstance(v, idxset.LVec):
            raise Unsupported("product of sparse matrices of symbolic size")
        if (coerce(self.shape[1]) - v.n).p:
            raise ValueError("dimension mismatch")
        return idxset.LVec(self.shape[0], lambda i: self.bilinear(lambda r: sym.ind(rel("eq", coerce(r), i)), v.at))

    __matmul__ = dot

    def __mul__(self, o):
        c = coerce(o)
        if c is None and self.format != "dense":
            return self.dot(o)
        if c is None:
            raise Unsupported("product of sparse matrices of symbolic size")
        return OMat([(s * c, d, r, cc) for s, d, r, cc in self.trip], self.shape, self.format)

    __rmul__ = __mul__

    def __truediv__(self, o):
        c = coerce(o)
        if c is None:
            raise Unsupported("division")
        return self * (S.const(1) / c)

    def __getattr__(self, n):
        if n in ("data", "row", "col") and self.format == "coo" and len(self.trip) == 1 and self.trip[0][0].isconst():
            return SymArray(self.trip[0][{"data": 1, "row": 2, "col": 3}[n]])
        raise Unsupported("attribute " + n + " of a sparse matrix of symbolic size")

    def __iter__(self):
        raise Unsupported("iteration over a matrix of symbolic size")

    def __getitem__(self, k):
        from .idxset import RangeMask
        if isinstance(k, RangeMask) and not k.keep_in:
            # boolean row mask: the rows kept, in order
            if (coerce(k.n) - self.shape[0]).p:
                raise IndexError("boolean index did not match")
            def keep(ps):
                return Mask_(ps, k.R)
            out = []
            for s, d, r, c in self.trip:
                m = keep(r)
                from . import idxset
                from .coll import map_parts
                out.append((s, idxset.select(d, m), map_parts(idxset.select(r, m), lambda x: coerce(x) - k.R.cnt(x)), idxset.select(c, m)))
            return OMat(out, (self.shape[0] - k.R.size(), self.shape[1]), self.format)
        raise Unsupported("indexing a sparse matrix of symbolic size")

    def toarray(self):
        return OMat(self.trip, self.shape, "dense")

    todense = toarray

    def reshape(self, *a):
        sh = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
        if self.format == "dense" and len(sh) == 1 and any(isinstance(q, int) and q == 1 for q in self.shape):
            return self
        raise Unsupported("reshape of a matrix of symbolic size")

    ravel = flatten = lambda self: self.reshape(-1)

    def bilinear(self, u, v):
        t = S.const(0)
        for s, d, r, c in self.trip:
            t = t + s * _bil(d, r, c, u, v)
        return t

    def indices(self):
        """all row and column indices with the conditions under which they occur"""
        out = []
        for s, d, r, c in self.trip:
            _idx(r, (), out)
            _idx(c, (), out)
        return out

    def _vc_values(self):
        return [list(t[1:]) for t in self.trip]


def Mask_(ps, R):
    from . import idxset
    from .coll import map_parts
    return idxset.Mask(map_parts(ps, lambda x: neg(R.inset(x))))


def _idx(ps, conds, out):
    for p in ps:
        if p[0] == "c":
            for x in p[1]:
                out.append((conds, x))
        elif p[0] == "s":
            for cond, inner in p[2]:
                _idx(norm_inner(inner), conds + ((cond,) if cond is not True else ()), out)
        else:
            raise Unsupported("sorted")


def _flat(ps):
    """parts -> list of ('c', item) / ('s', el, alts) with inner parts flattened"""
    out = []
    for p in ps:
        if p[0] == "c":
            out.extend(("c", x) for x in p[1])
        elif p[0] == "s":
            out.append(p)
        else:
            raise Unsupported("sorted symbolic list used as matrix triplets")
    return out


def _bil(d, r, c, u, v):
    d, r, c = _flat(d), _flat(r), _flat(c)
    if not (len(d) == len(r) == len(c)):
        raise Unsupported("triplet sequences of different structure")
    t = S.const(0)
    for x, y, z in zip(d, r, c):
        if x[0] == "c" and y[0] == "c" and z[0] == "c":
            t = t + coerce(x[1]) * u(y[1]) * v(z[1])
            continue
        if not (x[0] == y[0] == z[0] == "s" and x[1] is y[1] is z[1] or (x[0] == y[0] == z[0] == "s" and x[1] is y[1] and y[1] is z[1])):
            raise Unsupported("triplet sequences that are not aligned")
        if not (len(x[2]) == len(y[2]) == len(z[2])):
            raise Unsupported("triplet sequences that are not aligned")
        body = S.const(0)
        for (c1, a), (c2, b), (c3, e) in zip(x[2], y[2], z[2]):
            if not (_ck(c1) == _ck(c2) == _ck(c3)):
                raise Unsupported("triplet sequences that are not aligned")
            w = _bil(norm_inner(a), norm_inner(b), norm_inner(e), u, v)
            if x[1] is None and len(a) == 1 and a[0][0] == "c" and len(a[0][1]) == 1 and c1 is not True:
                q = coerce(a[0][1][0])      # an entry that is only stored when it is not zero
                if c1.key() == neg(rel("eq", q, S.const(0))).key():
                    body = body + w
                    continue
            body = body + (w if c1 is True else S(sym.reduce_eq((sym.ind(c1) * w).p)))
        t = t + (sym.Sum(x[1], body) if x[1] is not None else body)
    return t


def _ck(c):
    return c.key() if isinstance(c, SBool) else c


def _make(fmt):
    def mk(arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, (OMat,)):
            return arg.copy()
        if isinstance(arg, SMat):
            return arg.asformat(fmt).copy()
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (row, col) = arg
            symbolic = any(is_symbolic(x) for x in (data, row, col)) or (shape is not None and any(isinstance(q, S) and not q.isconst() for q in shape))
            if symbolic:
                return OMat([(S.const(1), parts_of(data), parts_of(row), parts_of(col))], shape, fmt)
            data, row, col = list(data), list(row), list(col)
            if not (len(data) == len(row) == len(col)):
                raise ValueError("row, column, and data array must all be the same length")
            row = [_ix(x) for x in row]
            col = [_ix(x) for x in col]
            if any(isinstance(x, S) for x in row + col):
                return OMat([(S.const(1), [("c", data)], [("c", row)], [("c", col)])], shape, fmt)
            if shape is None:
                shape = (max(row) + 1, max(col) + 1)
            shape = tuple(int(x) for x in shape)
            a = shim_np.zeros(shape)
            for x, i, j in zip(data, row, col):
                if not (0 <= i < shape[0] and 0 <= j < shape[1]):
                    raise ValueError("index exceeds matrix dimension")
                a[i, j] = a[i, j] + coerce(x)
            if fmt == "coo":
                return SMat(a, "coo", [(i, j, coerce(x)) for x, i, j in zip(data, row, col)])
            return SMat(a, fmt)
        if isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(q, (int, _np.integer, S)) for q in arg):
            if any(isinstance(q, S) and not q.isconst() for q in arg):
                return OMat([], arg, fmt)
            return SMat(shim_np.zeros(tuple(int(q) for q in arg)), fmt)
        if isinstance(arg, tuple) and len(arg) == 3:
            raise Unsupported("csr from indptr")
        a = _dense(arg)
        if a.ndim == 1:
            a = a.reshape(1, -1)
        if a.ndim != 2:
            raise TypeError("expected a 2-D array")
        o = _np.empty(a.shape, dtype=object)
        for k, v in enumerate(a.ravel()):
            c = coerce(v)
            if c is None:
                raise TypeError("no supported conversion for types")
            o.reshape(-1)[k] = c
        return SMat(o, fmt)
    mk.__name__ = fmt + "_matrix"
    return mk


def _ix(x):
    if isinstance(x, S):
        if x.isconst() and isinstance(x.cval(), int):
            return x.cval()
        return x
    return int(x)


class _Spr:
    csr_matrix = staticmethod(_make("csr"))
    csc_matrix = staticmethod(_make("csc"))
    coo_matrix = staticmethod(_make("coo"))
    lil_matrix = staticmethod(_make("lil"))
    csr_array = csr_matrix
    spmatrix = SMat

    @staticmethod
    def diags(d, offsets=0, shape=None, format=None, dtype=None):
        if isinstance(d, (SMat, OMat)):
            raise TypeError("diags of a sparse matrix")
        v = _dense(d)
        if v.ndim == 2 and v.shape[0] == 1:
            v = v.ravel()
        if v.ndim != 1 or offsets not in (0, [0]):
            raise Unsupported("diags with offsets")
        n = v.size
        a = shim_np.zeros((n, n))
        for i in range(n):
            a[i, i] = coerce(v[i])
        m = SMat(a, "dia")
        if format == "coo":
            return SMat(a, "coo")
        return m if format is None else m.asformat(format)

    @staticmethod
    def eye(n, m=None, k=0, format=None, dtype=None):
        x = SMat(shim_np.eye(n, m), "dia")
        return x if format is None else x.asformat(format)

    identity = eye

    @staticmethod
    def issparse(x):
        return isinstance(x, (SMat, OMat))

    isspmatrix = issparse

    @staticmethod
    def block_diag(ms, format=None):
        ms = [m._arr() if isinstance(m, SMat) else _dense(m) for m in ms]
        n = sum(m.shape[0] for m in ms)
        k = sum(m.shape[1] for m in ms)
        a = shim_np.zeros((n, k))
        r = c = 0
        for m in ms:
            a[r:r + m.shape[0], c:c + m.shape[1]] = m
            r += m.shape[0]
            c += m.shape[1]
        return SMat(a, format or "coo")

    def __getattr__(self, n):
        raise Unsupported("scipy.sparse." + n)


spr = _Spr()


class _Sl:
    """scipy.sparse.linalg: assumed contracts"""
    calls = []

    def spsolve(self, A, b, **k):
        """requires square A; ensures A x == b (A non-singular)"""
        e = sym.ENGINE
        from . import linop
        if isinstance(A, linop.FOp):
            if not isinstance(b, linop.FVec) or b.kind == "row" or (coerce(A.m) - b.m).p:
                raise ValueError("matrix - rhs dimension mismatch")
            x = linop.FVec.atom(("x", len(self.calls)), b.m)
            self.calls.append((A, b, x))
            return x
        if isinstance(A, OMat):
            from .idxset import Vec
            if not isinstance(b, OMat) or (coerce(A.shape[0]) - A.shape[1]).p or (coerce(A.shape[0]) - b.shape[0]).p:
                raise ValueError("matrix - rhs dimension mismatch")
            x = Vec("x%d" % len(self.calls), A.shape[0])
            self.calls.append((A, b, x))
            return x
        a = A._arr() if isinstance(A, SMat) else _dense(A)
        bb = b._arr() if isinstance(b, SMat) else _dense(b)
        n = a.shape[0]
        bb = bb.reshape(-1)
        if a.shape[1] != n or bb.size != n:
            raise ValueError("matrix - rhs dimension mismatch")
        x = _np.empty(n, dtype=object)
        for i in range(n):
            x[i] = sym.fresh("x")
        self.calls.append((a, bb, x))
        return x.copy()

    def cg(self, A, b, **k):
        return self.spsolve(A, b), 0

    def eigsh(self, K, k=6, M=None, sigma=None, which="LM", **kw):
        n = K.shape[0]
        if isinstance(K, OMat):
            return self._eig("eigsh", K, k, M, sigma, which, kw)
        w = _np.empty(int(k), dtype=object)
        for i in range(int(k)):
            w[i] = sym.fresh("w", pos=True)
        v = _np.empty((n, int(k)), dtype=object)
        for i in range(n):
            for j in range(int(k)):
                v[i, j] = sym.fresh("v")
        self.calls.append(("eigsh", K, M, w, v, sigma, which))
        return w.copy(), v.copy()

    def _eig(self, what, K, k, M, sigma, which, kw):
        """requires square K, M of one size, k < n (eigsh); ensures K v_i = w_i M v_i, v_i^T M v_j = [i=j], w ascending: the k smallest for sigma=0, which='LM' (K positive definite)"""
        from . import idxset
        n = coerce(K.shape[0])
        if M is None or (n - K.shape[1]).p or (n - M.shape[0]).p or (n - M.shape[1]).p:
            raise ValueError("wrong M dimensions")
        if what == "eigsh" and not bool(rel("lt", coerce(k), n)):
            raise TypeError("Cannot use scipy.linalg.eigh for sparse A with k >= N. Use scipy.linalg.eigh(A.toarray()) or reduce k.")
        t = len(self.calls)
        w = idxset.LVec(coerce(k), lambda i: sym.fn("w%d" % t, i, pos=True))
        v = idxset.Cols("mode%d" % t, n, coerce(k))
        self.calls.append((what, K, M, coerce(k), sigma, which, kw, w, v))
        return w, v

    def __getattr__(self, n):
        raise Unsupported("scipy.sparse.linalg." + n)


sl = _Sl()


class _Linalg:
    """scipy.linalg: assumed contracts"""

    def eigh(self, a, b=None, **k):
        if isinstance(a, OMat):
            if a.format != "dense" or (b is not None and b.format != "dense"):
                raise ValueError("Expected square matrix")
            return sl._eig("eigh", a, a.shape[0], b, None, None, k)
        raise Unsupported("scipy.linalg.eigh")

    def __getattr__(self, n):
        raise Unsupported("scipy.linalg." + n)


linalg = _Linalg()


class Rotation:
    """scipy.spatial.transform.Rotation: contract  apply(v) = R v,  R the rotation matrix of the
    normalised quaternion"""

    def __init__(self, M):
        self.M = M

    @staticmethod
    def from_quat(q, **k):
        q = [coerce(v) for v in (list(q) if not isinstance(q, _np.ndarray) else q.ravel())]
        x, y, z, w = q
        n2 = x * x + y * y + z * z + w * w
        zz, r = sym.is_zero_poly((n2 - 1).p)
        s = S.const(1) if zz else S.const(1) / n2
        M = _np.empty((3, 3), dtype=object)
        M[0, 0] = (x * x - y * y - z * z + w * w) * s
        M[1, 1] = (-x * x + y * y - z * z + w * w) * s
        M[2, 2] = (-x * x - y * y + z * z + w * w) * s
        M[0, 1] = (x * y - z * w) * 2 * s
        M[1, 0] = (x * y + z * w) * 2 * s
        M[0, 2] = (x * z + y * w) * 2 * s
        M[2, 0] = (x * z - y * w) * 2 * s
        M[1, 2] = (y * z - x * w) * 2 * s
        M[2, 1] = (y * z + x * w) * 2 * s
        return Rotation(M)

    @staticmethod
    def from_rotvec(v, degrees=False):
        v = _dense(v)
        th = shim_np.linalg.norm(v)
        c, s = sym.scos(th), sym.ssin(th)
        u = [coerce(a) / th for a in v]
        return Rotation(_rodrigues(u, c, s))

    @staticmethod
    def from_matrix(m):
        return Rotation(_dense(m))

    @staticmethod
    def from_euler(seq, angles, degrees=False):
        raise Unsupported("Rotation.from_euler")

    def apply(self, v, inverse=False):
        v = _dense(v)
        M = self.M.T if inverse else self.M
        return _matmul(v, M.T)

    def as_matrix(self):
        return self.M.copy()

    def inv(self):
        return Rotation(self.M.T.copy())

    def __mul__(self, o):
        return Rotation(_matmul(self.M, o.M))


def _rodrigues(u, c, s):
    M = _np.empty((3, 3), dtype=object)
    e = {(0, 1): -u[2], (0, 2): u[1], (1, 0): u[2], (1, 2): -u[0], (2, 0): -u[1], (2, 1): u[0]}
    for i in range(3):
        for j in range(3):
            M[i, j] = u[i] * u[j] * (1 - c) + (c if i == j else s * e[(i, j)])
    return M
