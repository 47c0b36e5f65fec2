"""What property files use."""
import numpy as _np
import numpy as npo
from . import sym, engine, loader, coll, shim_np as np, shim_sp
from .sym import S, SBool, var, PI, ssqrt, sabs, ssin, scos, fn, smax, smin, conj, disj, neg, rel, elem, Sum, card, ite, ind, Unsupported, bvar
from .loader import load, program
from .coll import SList, SDict


def V(*names, **k):
    return [var(n, **k) for n in names]


def vec(name, n, **k):
    return _np.array([var(f"{name}{i}", **k) for i in range(n)], dtype=object)


def arr(x):
    return np.array(x)


def mat(name, n, m=None, sym_=False):
    m = n if m is None else m
    a = _np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            a[i, j] = var(f"{name}_{min(i, j)}_{max(i, j)}") if sym_ else var(f"{name}_{i}_{j}")
    return a


def cross(a, b):
    return _np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)


def dot(a, b):
    t = S.const(0)
    for x, y in zip(a, b):
        t = t + x * y
    return t


def nsq(a):
    return dot(a, a)


def norm(a):
    return ssqrt(nsq(a))


def raises(f, *a, exc=Exception, **k):
    """(raised, result)"""
    try:
        return False, f(*a, **k)
    except Unsupported:
        raise
    except exc as e:
        return True, e


def blockdiag(T, n):
    k = T.shape[0]
    a = np.zeros((k * n, k * n))
    for i in range(n):
        a[k * i:k * i + k, k * i:k * i + k] = T
    return a


def dense(x):
    """dense object array of an array / sparse shim matrix"""
    if hasattr(x, "toarray"):
        return x.toarray()
    if hasattr(x, "todense"):
        return x.todense()
    return _np.asarray(x)
