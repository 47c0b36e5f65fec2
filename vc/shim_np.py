"""numpy as seen by the verified code: real numpy with object arrays of exact symbolic scalars.
Integer and boolean arrays stay native (they are exact); every float becomes an exact scalar."""
import types
import numpy as _np
from . import sym
from .sym import S, SBool, Unsupported, coerce
from . import engine as _eng
from .coll import SList, SDict, is_symbolic

FS = {}          # ghost file system: path -> saved value

ndarray = _np.ndarray
newaxis = None
bool_, int64, int32, object_, integer, floating = _np.bool_, _np.int64, _np.int32, _np.object_, _np.integer, _np.floating
float64 = float
float32 = float
double = float
nan = _np.nan
inf = _np.inf
pi = sym.PI
e = sym.fn("e", pos=True)


def _has_float(dt):
    return dt.kind in "fc"


def obj(x):
    """float arrays -> object arrays of exact scalars"""
    if isinstance(x, _np.ndarray):
        if x.dtype.kind == "f":
            o = _np.empty(x.shape, dtype=object)
            o.ravel()[...] = [None] * x.size if False else 0
            flat = [coerce(v) for v in x.ravel().tolist()]
            o = _np.empty(x.size, dtype=object)
            for k, v in enumerate(flat):
                o[k] = v
            return o.reshape(x.shape)
        return x
    if isinstance(x, (float, _np.floating)):
        return coerce(float(x))
    return x


def _tolist(x):
    if isinstance(x, SList):
        return [_tolist(y) for y in x.concrete_list()]
    if isinstance(x, (list, tuple)):
        return [_tolist(y) for y in x]
    return x


def _chk(x):
    if is_symbolic(x):
        raise Unsupported("numpy function of a symbolic-length sequence")


def array(x, dtype=None, copy=True, ndmin=0):
    from .shim_sp import SMat
    if isinstance(x, SMat):
        raise Unsupported("np.array of a sparse matrix")
    if is_symbolic(x):
        from .coll import SymArray, SymRange
        from .idxset import LVec, RStack
        if isinstance(x, (LVec, RStack)):
            return x
        if isinstance(x, SymRange):
            return x.lvec()
        if getattr(x, "_pi", None) is not None:
            from .idxset import PerIndex, per_index_vec
            v = per_index_vec(x._pi) if x._plain else None
            if v is not None:
                return v
            return PerIndex(x._pi[0], x._pi, (x._pi[0],))
        if hasattr(x, "_vc_list"):
            return x
        return SymArray.of(x)
    x = _tolist(x)
    if isinstance(x, (list, tuple)) and x:
        from .idxset import LVec, RStack
        if builtins_all(isinstance(y, LVec) for y in x):
            return RStack(list(x))
    if isinstance(x, _np.ndarray):
        a = x.copy()
    elif isinstance(x, (S, SBool)):
        a = _np.empty((), dtype=object)
        a[()] = x
    else:
        if _contains_obj(x):
            a = _np.array(x, dtype=object)
        else:
            a = _np.array(x)
    if dtype is not None:
        if dtype in (float, _np.float64):
            if a.dtype.kind in "ib":
                a = a.astype(object)
                a = _np.vectorize(coerce, otypes=[object])(a) if a.size else a
        elif dtype in (int, bool, _np.int64, _np.bool_, object):
            if a.dtype != object or dtype is object:
                a = a.astype(dtype)
            elif a.dtype == object and dtype is not object:
                a = a.astype(dtype)
    return obj(a)


def _contains_obj(x):
    if isinstance(x, (S, SBool)):
        return True
    if isinstance(x, (list, tuple)):
        return _b.any(_contains_obj(y) for y in x)
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    return False


asarray = array
def asanyarray(x, dtype=None):
    return array(x, dtype)


def _const_arr(shape, v, dtype):
    if isinstance(shape, S) and not shape.isconst():
        from .idxset import LVec
        return LVec(shape, lambda i: S.const(v))
    if isinstance(shape, S):
        shape = int(shape)
    if isinstance(shape, (list, tuple)):
        if _b.any(isinstance(q, S) and not q.isconst() for q in shape):
            if len(shape) == 2 and isinstance(shape[0], int) and not v:
                from .linop import FRows, FVec
                return FRows(shape[1], [FVec({}, shape[1]) for _ in range(shape[0])])
            raise Unsupported("array of symbolic shape")
        shape = tuple(int(q) for q in shape)
    if dtype in (int, bool, _np.int64, _np.bool_):
        return _np.full(shape, v, dtype=dtype)
    a = _np.empty(shape, dtype=object)
    a[...] = S.const(v)
    return a


def zeros(shape, dtype=None, order="C"):
    return _const_arr(shape, 0, dtype)


def ones(shape, dtype=None, order="C"):
    return _const_arr(shape, 1, dtype)


def empty(shape, dtype=None, order="C"):
    return _const_arr(shape, 0, dtype)


def full(shape, v, dtype=None):
    if dtype is None and isinstance(v, (S, float)):
        a = _np.empty(shape, dtype=object)
        a[...] = coerce(v)
        return a
    return _np.full(shape, v, dtype=dtype)


def zeros_like(a, dtype=None):
    return zeros(_np.shape(a), dtype)


def ones_like(a, dtype=None):
    return ones(_np.shape(a), dtype)


def eye(n, m=None, dtype=None, k=0):
    a = zeros((n, m if m is not None else n))
    for i in range(a.shape[0]):
        if 0 <= i + k < a.shape[1]:
            a[i, i + k] = S.const(1)
    return a


identity = eye


def _arr(x):
    a = array(x) if not isinstance(x, _np.ndarray) else obj(x)
    return a


def _lift1(name, f):
    def g(x, *a, **k):
        if hasattr(x, "map") and getattr(x, "_vc_symbolic", False):
            return x.map(f)
        if isinstance(x, S) or (not isinstance(x, (_np.ndarray, list, tuple))):
            c = coerce(x)
            if c is None:
                raise TypeError(name + " of " + type(x).__name__)
            return f(c)
        x = _arr(x)
        out = _np.empty(x.size, dtype=object)
        for k2, v in enumerate(x.ravel()):
            out[k2] = f(coerce(v))
        return out.reshape(x.shape)
    g.__name__ = name
    return g


sqrt = _lift1("sqrt", sym.ssqrt)
sin = _lift1("sin", sym.ssin)
cos = _lift1("cos", sym.scos)
tan = _lift1("tan", lambda s: s.tan())
tanh = _lift1("tanh", lambda s: s.tanh())
exp = _lift1("exp", lambda s: s.exp())
log = _lift1("log", lambda s: s.log())
arccos = _lift1("arccos", lambda s: s.arccos())
arcsin = _lift1("arcsin", lambda s: s.arcsin())
arctan = _lift1("arctan", lambda s: s.arctan())
_fabs = _lift1("abs", sym.sabs)
square = _lift1("square", lambda s: s * s)
radians = deg2rad = _lift1("radians", lambda s: s * sym.PI / 180)
degrees = rad2deg = _lift1("degrees", lambda s: s * 180 / sym.PI)


def floor(x):
    c = coerce(x)
    if c is not None and c.isconst():
        import math
        return S.const(math.floor(c.cval()))
    raise Unsupported("floor")


def abs(x):
    if isinstance(x, _np.ndarray) and x.dtype.kind in "ib":
        return _np.abs(x)
    if isinstance(x, (int, _np.integer)) and not isinstance(x, bool):
        return _np.abs(x)
    return _fabs(x)


absolute = fabs = abs


def _reduce(x, axis, f, **k):
    a = _arr(x)
    if a.dtype.kind in "ib":
        return None
    if axis is None:
        return f(list(a.ravel()))
    return _np.apply_along_axis(lambda v: f(list(v)), axis, a)


def max(x, axis=None, **k):
    _chk(x)
    a = _arr(x)
    if a.dtype.kind in "ib":
        return _np.max(a, axis=axis)
    return _reduce(a, axis, lambda v: sym.smax(*v))


def min(x, axis=None, **k):
    _chk(x)
    a = _arr(x)
    if a.dtype.kind in "ib":
        return _np.min(a, axis=axis)
    return _reduce(a, axis, lambda v: sym.smin(*v))


amax, amin = max, min


def maximum(a, b):
    return _np.vectorize(lambda p, q: sym.smax(p, q), otypes=[object])(a, b)


def minimum(a, b):
    return _np.vectorize(lambda p, q: sym.smin(p, q), otypes=[object])(a, b)


def sum(x, axis=None, **k):
    _chk(x)
    a = _arr(x)
    return a.sum(axis=axis)


def prod(x, axis=None):
    return _arr(x).prod(axis=axis)


def mean(x, axis=None):
    a = _arr(x)
    n = a.size if axis is None else a.shape[axis]
    return a.sum(axis=axis) * S.const(1) / n


average = mean


def all(x, axis=None):
    a = _arr(x)
    if a.dtype != object:
        return _np.all(a, axis=axis)
    return bool(sym.conj(*[v if isinstance(v, (SBool, bool, _np.bool_)) else (v != 0) for v in a.ravel()]))


def any(x, axis=None):
    a = _arr(x)
    if a.dtype != object:
        return _np.any(a, axis=axis)
    return bool(sym.disj(*[v if isinstance(v, (SBool, bool, _np.bool_)) else (v != 0) for v in a.ravel()]))


def cross(a, b, **k):
    a, b = _arr(a), _arr(b)
    if a.ndim == 1 and b.ndim == 1:
        if a.size == 3 and b.size == 3:
            r = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
            if a.dtype == object or b.dtype == object:
                o = _np.empty(3, dtype=object)
                for i in range(3):
                    o[i] = r[i]
                return o
            return _np.array(r)
        raise ValueError("incompatible dimensions for cross product")
    a2, b2 = _np.broadcast_arrays(a, b)
    return _np.array([cross(p, q) for p, q in zip(a2, b2)])


def dot(a, b):
    if not isinstance(a, _np.ndarray) and hasattr(a, "_is_smat"):
        raise Unsupported("np.dot with a sparse matrix")
    if hasattr(b, "_is_smat"):
        raise Unsupported("np.dot with a sparse matrix")
    a, b = _arr(a), _arr(b)
    return obj(_np.dot(a, b))


def matmul(a, b):
    return obj(_np.matmul(_arr(a), _arr(b)))


def inner(a, b):
    return obj(_np.inner(_arr(a), _arr(b)))


def outer(a, b):
    return obj(_np.outer(_arr(a), _arr(b)))


def vdot(a, b):
    return obj(_np.dot(_arr(a).ravel(), _arr(b).ravel()))


def _ints(x):
    return isinstance(x, (int, _np.integer)) and not isinstance(x, bool) or (isinstance(x, S) and x.isconst() and isinstance(x.cval(), int))


def arange(*args, dtype=None):
    args = [int(a) if _ints(a) else a for a in args]
    if builtins_all(isinstance(a, (int, _np.integer)) for a in args):
        r = _np.arange(*args)
        if dtype in (float,):
            return array(r, dtype=float)
        return r
    from .coll import SymRange
    st, en, step = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
    st, en, step = coerce(st), coerce(en), coerce(step)
    n = (en - st) / step
    if n.isconst():
        import math
        c = math.ceil(n.cval())
        o = _np.empty(builtins_max(c, 0), dtype=object)
        for i in range(builtins_max(c, 0)):
            o[i] = st + step * i
        # the float evaluation of ceil((stop-start)/step) is not the exact one: the length is
        # only determined by the contract of numpy.arange when step is an integer
        if not (step.isconst() and isinstance(step.cval(), int) and st.isconst() and en.isconst()):
            from .coll import Grid
            return Grid(st, step, sym.var(f"arange{Grid.count}", nonneg=True))
        return o
    if step.isconst() and step.cval() == 1 and st.isconst():
        return SymRange(st, en)
    from .coll import Grid
    k = sym.var(f"arange{Grid.count}", nonneg=True)      # ceil((stop - start) / step), up to rounding
    return Grid(st, step, k)


import builtins as _b
builtins_all, builtins_max, builtins_min = _b.all, _b.max, _b.min


def linspace(a, b, num=50, endpoint=True, **k):
    a, b = coerce(a), coerce(b)
    if k.get("retstep") or isinstance(num, S) and not num.isconst() or int(num) > 64:
        if k or not endpoint:
            raise Unsupported("options of linspace")
        from .coll import Grid
        return Grid(a, (b - a) / (coerce(num) - 1), coerce(num))
    n = int(num)
    o = _np.empty(n, dtype=object)
    d = (n - 1) if endpoint else n
    for i in range(n):
        o[i] = a + (b - a) * S.const(i) / S.const(d) if d else a
    return o


def isin(a, b, **k):
    from .coll import SymRange
    if isinstance(a, range):
        a = _np.array(list(a))
    if is_symbolic(a) or is_symbolic(b) or isinstance(a, SymRange):
        from .coll import sym_isin
        return sym_isin(a, b)
    a = _arr(a)
    bl = list(b) if not isinstance(b, _np.ndarray) else list(b.ravel())
    if a.dtype.kind in "ib" and builtins_all(isinstance(x, (int, _np.integer)) for x in bl):
        return _np.isin(a, bl) if bl else _np.zeros(a.shape, dtype=bool)
    out = _np.empty(a.size, dtype=bool)
    for k2, v in enumerate(a.ravel()):
        out[k2] = _b.any(bool(v == x) for x in bl)
    return out.reshape(a.shape)


def _noattr(name):
    raise AttributeError(f"module 'numpy' has no attribute '{name}'")


def interp(x, xp, fp, left=None, right=None):
    xs = [coerce(v) for v in list(xp)]
    fs = [coerce(v) for v in list(fp)]
    if isinstance(x, (_np.ndarray, list)):
        return _np.array([interp(v, xp, fp, left, right) for v in x], dtype=object)
    x = coerce(x)
    if bool(x < xs[0]):
        return coerce(left) if left is not None else fs[0]
    if bool(x > xs[-1]):
        return coerce(right) if right is not None else fs[-1]
    for i in range(len(xs) - 1):
        if bool(x <= xs[i + 1]):
            return fs[i] + (fs[i + 1] - fs[i]) / (xs[i + 1] - xs[i]) * (x - xs[i])
    return fs[-1]


def _stack(f):
    def g(xs, **k):
        if is_symbolic(xs):
            raise Unsupported("stacking a symbolic-length sequence")
        xs = list(xs)
        from .idxset import LVec, RStack
        from . import linop
        if _b.any(isinstance(x, (linop.FRows, linop.FVec)) for x in xs):
            if f is _np.vstack and not k:
                return linop.vstack(xs)
            raise Unsupported("stacking vectors")
        if _b.any(isinstance(x, LVec) for x in xs):
            if f in (_np.vstack, _np.stack) and not k and _b.all(isinstance(x, LVec) for x in xs):
                return RStack(xs)
            raise Unsupported("stacking a symbolic-length vector")
        return obj(f([_arr(x) for x in xs], **k))
    return g


vstack, hstack, stack, concatenate = _stack(_np.vstack), _stack(_np.hstack), _stack(_np.stack), _stack(_np.concatenate)


def diag(x, k=0):
    x = _arr(x)
    if x.ndim == 1:
        a = zeros((x.size, x.size))
        for i in range(x.size):
            a[i, i] = x[i]
        return a
    return _np.diag(x, k).copy()


def insert(a, i, v, axis=None):
    return _np.insert(_arr(a), i, v, axis)


def allclose(a, b, rtol=None, atol=None, **k):
    rtol = coerce(1e-5 if rtol is None else rtol)
    atol = coerce(1e-8 if atol is None else atol)
    a, b = _np.broadcast_arrays(_arr(a), _arr(b))
    return bool(sym.conj(*[sym.rel("le", sym.sabs(coerce(p) - coerce(q)), atol + rtol * sym.sabs(coerce(q)))
                           for p, q in zip(a.ravel(), b.ravel())]))


def isclose(a, b, rtol=None, atol=None, **k):
    if _np.ndim(a) == 0 and _np.ndim(b) == 0:
        return allclose(a, b, rtol, atol)
    a, b = _np.broadcast_arrays(_arr(a), _arr(b))
    return _np.array([allclose(p, q, rtol, atol) for p, q in zip(a.ravel(), b.ravel())]).reshape(a.shape)


def array_equal(a, b):
    a, b = _arr(a), _arr(b)
    return a.shape == b.shape and builtins_all(bool(p == q) for p, q in zip(a.ravel(), b.ravel()))


def where(c, a=None, b=None):
    if a is None:
        return _np.where(_np.array([bool(x) for x in _arr(c).ravel()]).reshape(_np.shape(c)))
    if isinstance(c, (SBool, bool, _np.bool_)):
        return sym.ite(c, a, b) if not isinstance(a, _np.ndarray) else (a if bool(c) else b)
    c = _arr(c)
    a2, b2 = _np.broadcast_to(_arr(a), c.shape), _np.broadcast_to(_arr(b), c.shape)
    o = _np.empty(c.size, dtype=object)
    for i, (x, p, q) in enumerate(zip(c.ravel(), a2.ravel(), b2.ravel())):
        o[i] = sym.ite(x, p, q)
    return o.reshape(c.shape)


def sign(x):
    c = coerce(x)
    if bool(c > 0):
        return S.const(1)
    if bool(c < 0):
        return S.const(-1)
    return S.const(0)


def clip(x, lo, hi):
    return minimum(maximum(x, lo), hi) if isinstance(x, _np.ndarray) else sym.smin(sym.smax(x, lo), hi)


def power(a, b):
    if isinstance(a, _np.ndarray):
        return a ** b
    return coerce(a) ** b


def divide(a, b):
    from .rtlib import _div
    return _div(a, b)


true_divide = divide


def mod(a, b):
    return a % b


def save(path, value, **k):
    # numpy.save appends ".npy" to a name that does not end with it
    if not isinstance(path, str):
        raise Unsupported("np.save to a file object")
    if not path.endswith(".npy"):
        path = path + ".npy"
    FS[path] = value.copy() if hasattr(value, "copy") else value


def load(path, **k):
    if path in FS:
        v = FS[path]
        if getattr(v, "_is_smat", False):
            raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
        return v.copy() if hasattr(v, "copy") else v
    raise FileNotFoundError(path)


class linalg(types.SimpleNamespace):
    class LinAlgError(ValueError):
        pass

    @staticmethod
    def norm(x, ord=None, axis=None):
        if ord not in (None, 2, "fro"):
            raise Unsupported("norm order")
        a = _arr(x)
        if axis is not None:
            return _np.apply_along_axis(linalg.norm, axis, a)
        vs = [coerce(v) for v in a.ravel()]
        t = S.const(0)
        for v in vs:
            t = t + v * v
        r = sym.ssqrt(t)
        at = r.atoms()
        if len(r.p) == 1:
            for q in at:
                if q.kind == "sqrt" and q.id not in _eng.NORMS:
                    _eng.NORMS[q.id] = vs
        return r

    @staticmethod
    def det(m):
        a = _arr(m)
        n = a.shape[0]
        if n == 1:
            return coerce(a[0, 0])
        if n == 2:
            return coerce(a[0, 0]) * a[1, 1] - coerce(a[0, 1]) * a[1, 0]
        t = S.const(0)
        for j in range(n):
            c = coerce(a[0, j])
            if not c.p:
                continue
            t = t + (c * linalg.det(_np.delete(a[1:], j, axis=1))) * (1 if j % 2 == 0 else -1)
        return t

    @staticmethod
    def inv(m):
        a = _arr(m)
        n = a.shape[0]
        d = linalg.det(a)
        o = _np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                mi = _np.delete(_np.delete(a, j, axis=0), i, axis=1)
                c = linalg.det(mi) if n > 1 else S.const(1)
                o[i, j] = (c if (i + j) % 2 == 0 else -c) / d
        return o

    @staticmethod
    def solve(a, b):
        return dot(linalg.inv(a), b)


_PASS = {"reshape", "ravel", "transpose", "delete", "append", "shape", "size", "ndim", "repeat", "tile", "ix_",
         "broadcast_to", "atleast_1d", "atleast_2d", "squeeze", "expand_dims", "flip", "copy", "nonzero", "tril",
         "triu", "unique", "add", "subtract", "multiply", "trace", "meshgrid", "negative", "cumsum", "swapaxes",
         "logical_not", "logical_and", "logical_or", "bitwise_and", "invert", "roll", "take", "diff", "split",
         "tensordot", "einsum", "sort", "argsort", "flatnonzero", "count_nonzero", "dtype", "int_", "intp", "str_",
         "vectorize", "kron", "column_stack", "array_split", "full_like", "argmax", "argmin", "fill_diagonal", "isscalar", "ndenumerate", "ndindex", "searchsorted", "fromiter"}


def __getattr__(name):
    if name in _PASS:
        f = getattr(_np, name)
        if isinstance(f, type) or not callable(f):
            return f

        def g(*a, **k):
            for x in a:
                _chk(x)
            a = [(_arr(x) if (isinstance(x, (list, tuple)) and _contains_obj(x) and name not in ("einsum", "tensordot")) else x) for x in a]
            r = f(*a, **k)
            return obj(r) if isinstance(r, (_np.ndarray, float, _np.floating)) else r
        return g
    if not hasattr(_np, name):
        raise AttributeError(f"module 'numpy' has no attribute '{name}'")
    raise Unsupported("numpy." + name)
