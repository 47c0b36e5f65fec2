"""Symbolic scalars.

S is an exact element of a field of "Laurent polynomials over atoms": a dict
{monomial: rational coefficient}, a monomial being a sorted tuple of (atom id, non-zero
integer exponent).  Atoms are variables, square roots, sines/cosines, reciprocals of
multi-term polynomials, sums over symbolic collections, and opaque function applications.
Machine floats of the verified program are treated as mathematical reals (decimal literals
denote their decimal value); this is recorded as an assumption in every evidence file."""
from fractions import Fraction
import math
import numbers
import numpy as _np
import mpmath

mpmath.mp.dps = 50


class Unsupported(Exception):
    """The construct is outside what the engine can decide: the obligation stays undecided."""


class TooBig(Unsupported):
    pass


MAXTERMS = 300000


# ----------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "pos", "key", "nonneg")

    def __repr__(self):
        return f"{self.kind}:{self.name}"


ATOMS = []
BYKEY = {}


def mkatom(kind, name, args=(), pos=False, key=None, nonneg=False):
    if kind == "var" or key is None:
        key = (kind, name, key)
    elif kind == "fn":
        key = (kind, args[0], key)
    else:
        key = (kind, key)
    a = BYKEY.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.name, a.args, a.pos, a.key = kind, name, args, pos, key
        a.nonneg = nonneg or pos
        ATOMS.append(a)
        BYKEY[key] = a
    return a


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def frac_of_float(x):
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported("non-finite float")
    return norm(Fraction(repr(float(x))))


def coerce(x):
    """number -> S or None"""
    if isinstance(x, S):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return S.const(int(x))
    if isinstance(x, (int, _np.integer)):
        return S.const(int(x))
    if isinstance(x, Fraction):
        return S.const(norm(x))
    if isinstance(x, (float, _np.floating)):
        return S.const(frac_of_float(x))
    if isinstance(x, SBool):
        return ite(x, 1, 0)
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return coerce(x.item())
    return None


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    la, lb = len(a), len(b)
    out = []
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def pmul(p, q):
    if len(p) * len(q) > 40 * MAXTERMS:
        raise TooBig("product too large")
    if len(p) > len(q):
        p, q = q, p
    out = {}
    for ma, ca in p.items():
        for mb, cb in q.items():
            m = mono_mul(ma, mb)
            c = out.get(m)
            v = ca * cb
            if c is None:
                out[m] = v
            else:
                v = c + v
                if v == 0:
                    del out[m]
                else:
                    out[m] = v
    if len(out) > MAXTERMS:
        raise TooBig("too many terms")
    return {m: norm(c) for m, c in out.items()}


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    out = dict(p)
    for m, c in q.items():
        d = out.get(m)
        if d is None:
            out[m] = c
        else:
            d = d + c
            if d == 0:
                del out[m]
            else:
                out[m] = norm(d)
    return out


def ppow(p, n):
    r = {(): 1}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def pscale(p, c):
    if c == 0:
        return {}
    return {m: norm(v * c) for m, v in p.items()}


def pkey(p):
    return frozenset(p.items())


_INT = (int,)


class S:
    __slots__ = ("p", "_h")
    __array_priority__ = 0

    def __init__(self, p):
        self.p = p
        self._h = None

    # -- construction
    @staticmethod
    def const(c):
        return S({(): norm(c)} if c != 0 else {})

    @staticmethod
    def of(a):
        return S({((a.id, 1),): 1})

    # -- inspection
    def isconst(self):
        p = self.p
        return not p or (len(p) == 1 and () in p)

    def cval(self):
        return self.p.get((), 0)

    def atoms(self):
        return {ATOMS[i] for m in self.p for i, _ in m}

    def single_atom(self):
        """the atom if self is exactly one atom with coefficient 1"""
        if len(self.p) == 1:
            (m, c), = self.p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None

    # -- arithmetic
    def __add__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return S(padd(self.p, o.p))
    __radd__ = __add__

    def __neg__(self):
        return S({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return S(padd(self.p, {m: -c for m, c in o.p.items()}))

    def __rsub__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return S(pmul(self.p, o.p))
    __rmul__ = __mul__

    def inv(self):
        p = self.p
        if not p:
            raise ZeroDivisionError("division by zero")
        hook = ENGINE.on_division if ENGINE is not None else None
        if hook is not None and not self.isconst():
            hook(self)
        if len(p) == 1:
            (m, c), = p.items()
            return S({tuple((i, -e) for i, e in m): norm(Fraction(1) / c)})
        pr, cont, mon = primitive(p)
        a = mkatom("den", f"D{len(ATOMS)}", args=pr, key=pkey(pr))
        m = mono_mul(tuple((i, -e) for i, e in mon), ((a.id, -1),))
        return S({m: norm(Fraction(1) / cont)})

    def __truediv__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        if len(o.p) > 1:
            q = prop(self.p, o.p)
            if q is not None:
                if ENGINE is not None and ENGINE.on_division is not None:
                    ENGINE.on_division(o)
                return S.const(q)
        return self * o.inv()

    def __rtruediv__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, e):
        e2 = coerce(e)
        if e2 is None:
            return NotImplemented
        if e2.isconst():
            v = e2.cval()
            if isinstance(v, int):
                if v >= 0:
                    return S(ppow(self.p, v))
                return (self.inv()) ** (-v)
            if v == Fraction(1, 2):
                return self.sqrt()
            if v == Fraction(-1, 2):
                return self.sqrt().inv()
        if self.isconst() and self.cval() == 1:
            return self
        return powfn(self, e2)

    def __rpow__(self, b):
        b = coerce(b)
        if b is None:
            return NotImplemented
        return b ** self

    def __abs__(self):
        return sabs(self)

    def __floordiv__(self, o):
        o = coerce(o)
        if o is not None and self.isconst() and o.isconst():
            return S.const(self.cval() // o.cval())
        raise Unsupported("floor division of symbolic value")

    def __mod__(self, o):
        o = coerce(o)
        if o is not None and self.isconst() and o.isconst():
            return S.const(self.cval() % o.cval())
        raise Unsupported("modulo of symbolic value")

    # numpy object-ufunc hooks
    def sqrt(self):
        return ssqrt(self)

    def sin(self):
        return ssin(self)

    def cos(self):
        return scos(self)

    def tan(self):
        return ssin(self) / scos(self)

    def tanh(self):
        return fn("tanh", self)

    def exp(self):
        if self.isconst() and self.cval() == 0:
            return S.const(1)
        return fn("exp", self, pos=True)

    def log(self):
        return fn("log", self)

    def arccos(self):
        return fn("acos", self)

    def arcsin(self):
        return fn("asin", self)

    def arctan(self):
        return fn("atan", self)

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def T(self):
        return self

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    # -- relations
    def _rel(self, o, op, flip=False):
        o = coerce(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if flip else (self, o)
        return rel(op, a, b)

    def __lt__(self, o):
        return self._rel(o, "lt")

    def __le__(self, o):
        return self._rel(o, "le")

    def __gt__(self, o):
        return self._rel(o, "lt", True)

    def __ge__(self, o):
        return self._rel(o, "le", True)

    def __eq__(self, o):
        o2 = coerce(o)
        if o2 is None:
            if o is None or isinstance(o, (str, list, tuple, dict)):
                return False
            return NotImplemented
        return rel("eq", self, o2)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, bool):
            return not r
        return ~r

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.cval()) if self.isconst() else hash(pkey(self.p))
        return self._h

    def __bool__(self):
        if self.isconst():
            return self.cval() != 0
        return bool(self != 0)

    def __float__(self):
        if self.isconst():
            return float(self.cval())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.isconst():
            return int(self.cval())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.isconst() and isinstance(self.cval(), int):
            return self.cval()
        raise Unsupported("symbolic value used as an index")

    def __round__(self, n=None):
        if self.isconst():
            return S.const(Fraction(round(Fraction(self.cval()), n or 0)))
        raise Unsupported("round() of a symbolic value")

    def __trunc__(self):
        return int(self)

    def __repr__(self):
        return show(self.p)


def show(p, lim=12):
    if not p:
        return "0"
    out = []
    for k, (m, c) in enumerate(p.items()):
        if k >= lim:
            out.append(f"...({len(p)} terms)")
            break
        out.append(str(c) + "".join(f"*{ATOMS[i].name}" + (f"^{e}" if e != 1 else "") for i, e in m))
    return " + ".join(out)


def prop(p, q):
    """c with p == c*q, else None"""
    if len(p) != len(q) or not p:
        return None
    it = iter(q)
    m0 = next(it)
    if m0 not in p:
        return None
    c = norm(Fraction(p[m0]) / q[m0])
    for m, v in q.items():
        if p.get(m) != v * c:
            return None
    return c


def primitive(p):
    """p = cont * mon * pr with pr primitive: integer coprime coefficients, leading sign +"""
    mins = None
    for m in p:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for k in list(mins):
                e = d.get(k, 0)
                if e < mins[k]:
                    mins[k] = e
            for k, e in d.items():
                if k not in mins and e < 0:
                    mins[k] = e
    # atoms absent from some monomials count as exponent 0
    for m in p:
        d = dict(m)
        for k in mins:
            if k not in d and mins[k] > 0:
                mins[k] = 0
    mon = tuple(sorted((k, e) for k, e in mins.items() if e))
    num = 0
    den = 1
    for c in p.values():
        f = Fraction(c)
        num = math.gcd(num, f.numerator)
        den = den * f.denominator // math.gcd(den, f.denominator)
    cont = Fraction(num, den)
    minv = tuple((k, -e) for k, e in mon)
    pr = {mono_mul(m, minv): norm(Fraction(c) / cont) for m, c in p.items()}
    lead = max(pr)
    if pr[lead] < 0:
        pr = {m: -c for m, c in pr.items()}
        cont = -cont
    return pr, norm(cont), mon


# ----------------------------------------------------------------- variables & functions
def var(name, pos=False, nonneg=False):
    return S.of(mkatom("var", name, pos=pos, key=(pos, nonneg), nonneg=nonneg))


_fresh = [0]


def fresh(name, **k):
    _fresh[0] += 1
    return var(f"{name}#{_fresh[0]}", **k)


PI = S.of(mkatom("pi", "pi", pos=True))


def surely_pos(s, strict=True):
    if not s.p:
        return not strict
    for m, c in s.p.items():
        if c < 0:
            return False
        for i, e in m:
            a = ATOMS[i]
            if a.pos:
                continue
            if not strict and (a.nonneg or e % 2 == 0):
                continue
            if e < 0 and (a.nonneg or e % 2 == 0):   # defined => non-zero
                continue
            return False
    return True


def isqrt_exact(c):
    f = Fraction(c)
    if f < 0:
        return None
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return norm(Fraction(a, b))
    return None


def poly_root(p):
    """polynomial r with r*r == p (as dicts), or None; small inputs only"""
    if len(p) > 60 or len(p) < 3:
        return None
    def lead(q):
        return max(q, key=lambda m: (sum(e for _, e in m), tuple((-i, e) for i, e in m)))
    if any(e < 0 for m in p for _, e in m):
        return None
    m0 = lead(p)
    if any(e % 2 for _, e in m0):
        return None
    c0 = isqrt_exact(p[m0])
    if c0 is None:
        return None
    l0 = tuple((i, e // 2) for i, e in m0)
    r = {l0: c0}
    rest = padd(p, pscale(pmul(r, r), -1))
    for _ in range(30):
        if not rest:
            return r
        m = lead(rest)
        q = mono_mul(m, tuple((i, -e) for i, e in l0))
        if any(e < 0 for _, e in q) or q in r:
            return None
        r2 = dict(r)
        r2[q] = norm(Fraction(rest[m]) / (2 * c0))
        rest = padd(p, pscale(pmul(r2, r2), -1))
        r = r2
    return None


def squarefree(n):
    s, f, d = 1, n, 2
    while d * d <= f and d < 100000:
        while f % (d * d) == 0:
            f //= d * d
            s *= d
        d += 1
    return s, f


def ssqrt(s):
    if s.isconst():
        c = s.cval()
        if c < 0:
            raise Unsupported("sqrt of negative constant")
        r = isqrt_exact(c)
        if r is not None:
            return S.const(r)
    p = s.p
    pr, cont, mon = primitive(p)
    if cont < 0:
        cont = -cont
        pr = pscale(pr, -1)
    out = S.const(1)
    left = []
    for i, e in mon:
        a = ATOMS[i]
        h = e // 2 if e >= 0 else -((-e) // 2)
        base = S.of(a) if a.nonneg else sabs(S.of(a))
        if h:
            out = out * (base ** h if h > 0 else base.inv() ** (-h))
        if e - 2 * h:
            left.append((i, e - 2 * h))
    f = Fraction(cont)
    ab = f.numerator * f.denominator
    sq, fr = squarefree(ab)
    out = out * S.const(Fraction(sq, f.denominator))
    if pr == {(): 1} and not left and fr == 1:
        return out
    rad = pmul(pr, {tuple(left): 1})
    root = poly_root(rad) if fr == 1 else None
    if root is not None:
        return out * sabs(S(root))
    rad = pscale(rad, fr)
    a = mkatom("sqrt", f"sqrt{len(ATOMS)}", args=rad, key=pkey(rad), nonneg=True,
               pos=surely_pos(S(rad)))
    return out * S.of(a)


def sabs(s):
    if s.isconst():
        return S.const(abs(s.cval()))
    if surely_pos(s, False):
        return s
    if surely_pos(-s, False):
        return -s
    if ENGINE is not None:
        sg = ENGINE.known_sign(s)
        if sg:
            return s if sg > 0 else -s
    pr, cont, mon = primitive(s.p)
    out = S.const(abs(cont))
    rest = dict(pr)
    for i, e in mon:
        a = ATOMS[i]
        if a.nonneg or e % 2 == 0:
            out = out * S({((i, e),): 1})
        else:
            rest = pmul(rest, {((i, e),): 1})
    if rest == {(): 1}:
        return out
    a = mkatom("abs", f"abs{len(ATOMS)}", args=rest, key=pkey(rest), nonneg=True)
    return out * S.of(a)


def _signnorm(s):
    """(sign, |s| representative) so that odd/even functions get canonical arguments"""
    if not s.p:
        return 1, s
    lead = max(s.p)
    if s.p[lead] < 0:
        return -1, -s
    return 1, s


def ssin(s):
    if s.isconst() and s.cval() == 0:
        return S.const(0)
    g, t = _signnorm(s)
    return S.of(mkatom("sin", f"sin({show(t.p, 4)})", args=(t,), key=pkey(t.p))) * g


def scos(s):
    if s.isconst() and s.cval() == 0:
        return S.const(1)
    g, t = _signnorm(s)
    return S.of(mkatom("cos", f"cos({show(t.p, 4)})", args=(t,), key=pkey(t.p)))


def fn(name, *args, pos=False, nonneg=False):
    args = tuple(coerce(a) if coerce(a) is not None else a for a in args)
    key = tuple(pkey(canon(a).p) if isinstance(a, S) else a for a in args)
    return S.of(mkatom("fn", name + "(" + ",".join(repr(a) for a in args) + ")", args=(name, args),
                       key=key, pos=pos, nonneg=nonneg))


def powfn(b, e):
    if b.isconst() and b.cval() > 0:
        return fn("pow", b, e, pos=True)
    return fn("pow", b, e, pos=surely_pos(b))


def smax(*args):
    return _ext("max", args)


def smin(*args):
    return _ext("min", args)


def _ext(kind, args):
    flat = []
    for x in args:
        x = coerce(x)
        if x is None:
            raise Unsupported(kind + " of non-number")
        a = x.single_atom()
        if a is not None and a.kind == kind:
            flat.extend(a.args)
        elif not any(x is y or x.p == y.p for y in flat):
            flat.append(x)
    cs = [x for x in flat if x.isconst()]
    if len(cs) > 1:
        c = (max if kind == "max" else min)(cs, key=lambda s: s.cval())
        flat = [x for x in flat if not x.isconst()] + [c]
    if len(flat) == 1:
        return flat[0]
    # ordering known from the signs of the operands
    keep = []
    for x in flat:
        drop = False
        for y in flat:
            if y is x:
                continue
            d = (y - x) if kind == "max" else (x - y)
            if surely_pos(d, False):
                drop = True
                break
        if not drop:
            keep.append(x)
    flat = keep or flat[:1]
    if len(flat) == 1:
        return flat[0]
    key = frozenset(pkey(x.p) for x in flat)
    nn = (any if kind == "max" else all)(surely_pos(x, False) for x in flat)
    ps = (any if kind == "max" else all)(surely_pos(x) for x in flat)
    return S.of(mkatom(kind, kind + "(" + ",".join(show(x.p, 3) for x in flat) + ")", args=tuple(flat),
                       key=key, nonneg=nn, pos=ps))


def ite(c, a, b):
    if isinstance(c, (bool, _np.bool_)):
        return coerce(a) if c else coerce(b)
    a, b = coerce(a), coerce(b)
    if a.p == b.p:
        return a
    i = ind(c)
    return S(reduce_ind((b + i * (a - b)).p))


def reduce_ind(p):
    """indicator atoms are idempotent"""
    if not any(e > 1 and ATOMS[i].kind == "ind" for m in p for i, e in m):
        return p
    out = {}
    for m, c in p.items():
        m = tuple((i, 1 if (e > 1 and ATOMS[i].kind == "ind") else e) for i, e in m)
        v = out.get(m, 0) + c
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = norm(v)
    return out


def reduce_eq(p):
    """idempotence, and [d = 0] * q = [d = 0] * (q mod d)"""
    p = reduce_ind(p)
    ids = {i for m in p for i, e in m if ATOMS[i].kind == "ind"}
    for i in sorted(ids):
        c = ATOMS[i].args[0]
        if not (isinstance(c, SBool) and c.op == "rel" and c.args[0] == "eq"):
            continue
        d = c.args[1].p
        if not 0 < len(d) <= 60:
            continue
        q = {}
        for m, k in p.items():
            if any(j == i for j, _ in m):
                q[tuple(x for x in m if x[0] != i)] = k
        if not q or len(q) > 4000:
            continue
        r = pmod(q, d)
        if r is None or len(r) >= len(q):
            continue
        out = {m: k for m, k in p.items() if not any(j == i for j, _ in m)}
        for m, k in r.items():
            out[tuple(sorted(m + ((i, 1),)))] = k
        p = out
    return p


def pmod(q, d):
    """remainder of q on division by the single polynomial d (graded lexicographic order); None when not applicable"""
    if any(e < 0 for m in d for _, e in m):
        return None
    vs = sorted({i for m in d for i, _ in m})
    pos = {v: k for k, v in enumerate(vs)}

    def key(m):
        x = [0] * len(vs)
        for i, e in m:
            if i in pos:
                x[pos[i]] = e
        return sum(x), tuple(x)
    lead = max(d, key=key)
    if not lead:
        return None
    lc = d[lead]
    tail = [(m, k) for m, k in d.items() if m != lead]
    need = dict(lead)
    out, todo, steps = {}, dict(q), 0
    while todo:
        steps += 1
        if steps > 20000:
            return None
        m = max(todo, key=key)
        k = todo.pop(m)
        x = dict(m)
        if any(x.get(i, 0) < e for i, e in need.items()):
            out[m] = k
            continue
        for i, e in need.items():
            x[i] -= e
        f = Fraction(k) / Fraction(lc)
        for tm, tk in tail:
            y = dict(x)
            for i, e in tm:
                y[i] = y.get(i, 0) + e
            n = tuple(sorted((i, e) for i, e in y.items() if e))
            v = todo.get(n, 0) - f * tk
            if v == 0:
                todo.pop(n, None)
            else:
                todo[n] = norm(v)
    return out


def ind(c):
    """0/1 indicator of a condition, as a polynomial over atomic indicators"""
    if isinstance(c, (bool, _np.bool_)):
        return S.const(1 if c else 0)
    if c.op == "not":
        return S.const(1) - ind(c.args[0])
    if c.op == "and":
        r = S.const(1)
        for x in c.args:
            r = S(reduce_ind((r * ind(x)).p))
        return r
    if c.op == "or":
        r = S.const(1)
        for x in c.args:
            r = S(reduce_ind((r * (1 - ind(x))).p))
        return 1 - r
    if c.op == "rel":
        op, d = c.args
        if op == "le":          # d<=0  ==  not (-d<0)
            return S.const(1) - ind(rel("lt", -d, S.const(0)))
        if op == "eq":
            lead = max(d.p)
            if d.p[lead] < 0:
                d = -d
            c = SBool("rel", ("eq", d))
    return S.of(mkatom("ind", f"[{c!r}]", args=(c,), key=c.key(), nonneg=True))


# ----------------------------------------------------------------- booleans
class SBool:
    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op, self.args = op, args

    def key(self):
        if self.op == "rel":
            return (self.args[0], pkey(self.args[1].p))
        if self.op in ("var", "opaque"):
            return (self.op,) + tuple(self.args)
        if self.op in ("and", "or"):
            return (self.op, frozenset(a.key() for a in self.args))
        return (self.op,) + tuple(a.key() for a in self.args)

    def __invert__(self):
        if self.op == "not":
            return self.args[0]
        return SBool("not", (self,))

    def logical_not(self):
        return ~self

    def __and__(self, o):
        return conj(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return disj(self, o)
    __ror__ = __or__

    def __mul__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return conj(self, o)
        return ite(self, 1, 0) * o
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)) or (isinstance(o, (int, _np.integer)) and o in (0, 1)):
            return self if o else ~self
        if isinstance(o, SBool):
            return (self & o) | (~self & ~o)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        if ENGINE is None:
            raise Unsupported("symbolic condition outside the engine")
        return ENGINE.decide(self)

    def __repr__(self):
        if self.op == "rel":
            return f"({self.args[1]!r}) {self.args[0]} 0"
        return f"{self.op}{self.args!r}"


def conj(*bs):
    out = []
    for b in bs:
        if isinstance(b, (bool, _np.bool_)):
            if not b:
                return False
            continue
        if isinstance(b, SBool) and b.op == "and":
            out.extend(b.args)
        elif isinstance(b, SBool):
            out.append(b)
        else:
            raise Unsupported("conjunction with non-boolean")
    if not out:
        return True
    return out[0] if len(out) == 1 else SBool("and", tuple(out))


def disj(*bs):
    out = []
    for b in bs:
        if isinstance(b, (bool, _np.bool_)):
            if b:
                return True
            continue
        if isinstance(b, SBool) and b.op == "or":
            out.extend(b.args)
        elif isinstance(b, SBool):
            out.append(b)
        else:
            raise Unsupported("disjunction with non-boolean")
    if not out:
        return False
    return out[0] if len(out) == 1 else SBool("or", tuple(out))


def neg(b):
    return (not b) if isinstance(b, (bool, _np.bool_)) else ~b


def bvar(name):
    return SBool("var", (name,))


def rel(op, a, b):
    """a op b"""
    d = a - b
    if d.isconst():
        c = d.cval()
        return {"lt": c < 0, "le": c <= 0, "eq": c == 0}[op]
    if op == "eq":
        if len(d.p) == 1:
            (m, c), = d.p.items()
            if all(ATOMS[i].pos or e < 0 for i, e in m):
                return False
        return SBool("rel", ("eq", S(primitive(d.p)[0]) if _monpos(d) else d))
    # max/min on one side
    xa, xb = a.single_atom(), b.single_atom()
    if xa is not None and xa.kind == "max":
        return conj(*[rel(op, x, b) for x in xa.args])
    if xb is not None and xb.kind == "max":
        return disj(*[rel(op, a, x) for x in xb.args])
    if xa is not None and xa.kind == "min":
        return disj(*[rel(op, x, b) for x in xa.args])
    if xb is not None and xb.kind == "min":
        return conj(*[rel(op, a, x) for x in xb.args])
    # drop a positive common factor
    pr, cont, mon = primitive(d.p)
    keep = tuple((i, e) for i, e in mon if not ATOMS[i].pos)
    d = S(pscale(pmul(pr, {keep: 1}), 1 if cont > 0 else -1))
    if surely_pos(d):
        return False
    if surely_pos(-d):
        return True
    if op == "le" and surely_pos(-d, False):
        return True
    if op == "lt" and surely_pos(d, False):
        return False
    return SBool("rel", (op, d))


def _monpos(d):
    pr, cont, mon = primitive(d.p)
    return all(ATOMS[i].pos for i, e in mon) and True


# ----------------------------------------------------------------- normal form / zero test
def _clear(p):
    """multiply p by a non-zero monomial so that no den/sqrt/other atom has a negative exponent"""
    mins = {}
    for m in p:
        for i, e in m:
            if e < 0 and e < mins.get(i, 0):
                mins[i] = e
    if not mins:
        return p
    k = tuple(sorted((i, -e) for i, e in mins.items()))
    return {mono_mul(m, k): c for m, c in p.items()}


def _reducible(i, e):
    k = ATOMS[i].kind
    if k == "den":
        return e >= 1
    if k in ("sqrt", "abs", "cos", "ind"):
        return e >= 2
    return False


def reduce_poly(p, budget=200):
    """rewrite with the defining relations of sqrt, abs, cos and den atoms (positive exponents)"""
    for _ in range(budget):
        bad = None
        for m in p:
            for i, e in m:
                if _reducible(i, e):
                    if bad is None or i > bad:
                        bad = i
        if bad is None:
            return p
        a = ATOMS[bad]
        # group by exponent of `bad`
        groups = {}
        for m, c in p.items():
            e = 0
            rest = []
            for i, x in m:
                if i == bad:
                    e = x
                else:
                    rest.append((i, x))
            groups.setdefault(e, {})[tuple(rest)] = c
        if a.kind == "den":
            sub, step = a.args, 1
        elif a.kind == "ind":
            p = reduce_ind(p)
            continue
        elif a.kind == "sqrt":
            sub, step = a.args, 2
        elif a.kind == "abs":
            sub, step = pmul(a.args, a.args), 2
        else:
            sn = mkatom("sin", f"sin({show(a.args[0].p, 4)})", args=a.args, key=pkey(a.args[0].p))
            sub, step = {(): 1, ((sn.id, 2),): -1}, 2
        out = {}
        cache = {}
        for e, g in groups.items():
            q, r = (divmod(e, step) if e > 0 else (0, e))
            if q not in cache:
                cache[q] = ppow(sub, q)
            t = pmul(g, cache[q]) if q else g
            if r:
                t = pmul(t, {((bad, r),): 1})
            out = padd(out, t)
        p = _clear(out)
    raise TooBig("reduction did not terminate")


def canon(s):
    """light canonical form used for keys of function arguments"""
    return s


def is_zero_poly(p):
    p = _clear(p)
    p = reduce_poly(p)
    return not p, p


# ----------------------------------------------------------------- symbolic collections
class Elem:
    """the arbitrary element of a symbolic collection"""
    __slots__ = ("coll", "depth")

    def __init__(self, coll, depth):
        self.coll, self.depth = coll, depth

    def __repr__(self):
        return f"{self.coll}" + ("'" * self.depth)

    def _same(self, o):
        if o is self:
            return True
        if isinstance(o, Elem):
            return bvar(("same",) + tuple(sorted((repr(self), repr(o)))))
        return bvar(("same", repr(self), repr(o)))

    def __eq__(self, o):
        if o is self:
            return True
        if ENGINE is None:
            return False
        if o is None or not isinstance(o, (Elem, str)):
            return False
        return ENGINE.decide(self._same(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(("Elem", self.coll, self.depth))

    def __str__(self):
        return f"<{self!r}>"

    def __deepcopy__(self, memo):
        return self


_ELEMS = {}


def elem(coll, depth=0):
    k = (coll, depth)
    if k not in _ELEMS:
        _ELEMS[k] = Elem(coll, depth)
    return _ELEMS[k]


_DEP = {}


def deps(x):
    """set of Elems a value depends on"""
    if isinstance(x, Elem):
        return frozenset([x])
    if isinstance(x, S):
        out = frozenset()
        for a in x.atoms():
            out |= atom_deps(a)
        return out
    if isinstance(x, SBool):
        out = frozenset()
        for y in x.args:
            out |= deps(y)
        return out
    if isinstance(x, tuple):
        out = frozenset()
        for y in x:
            out |= deps(y)
        return out
    if isinstance(x, dict):
        out = frozenset()
        for m in x:
            for i, _ in m:
                out |= atom_deps(ATOMS[i])
        return out
    return frozenset()


def atom_deps(a):
    r = _DEP.get(a.id)
    if r is None:
        if a.kind == "sum":
            r = deps(a.args[1]) - frozenset([a.args[0]])
        else:
            r = deps(a.args)
        _DEP[a.id] = r
    return r


def Sum(el, body):
    """sum of body over all elements of el.coll; linear normal form"""
    body = coerce(body)
    out = {}
    for m, c in body.p.items():
        dep = tuple((i, e) for i, e in m if el in atom_deps(ATOMS[i]))
        free = tuple((i, e) for i, e in m if el not in atom_deps(ATOMS[i]))
        at = mkatom("sum", f"SUM[{el}]({show({dep: 1})})", args=(el, {dep: 1}), key=(repr(el), dep),
                    nonneg=surely_pos(S({dep: 1}), False))
        mm = mono_mul(free, ((at.id, 1),))
        v = out.get(mm, 0) + c
        if v == 0:
            out.pop(mm, None)
        else:
            out[mm] = norm(v)
    return S(out)


def card(el):
    return Sum(el, S.const(1))


# ----------------------------------------------------------------- numeric evaluation
def _hash01(key):
    import hashlib
    h = hashlib.sha256(repr(key).encode()).digest()
    return mpmath.mpf(int.from_bytes(h[:8], "big")) / mpmath.mpf(2 ** 64)


class NumEnv:
    """assignment of base variables; values are mpf (or Fraction)"""

    def __init__(self, rng, values=None):
        self.rng = rng
        self.values = dict(values or {})
        self.bools = {}
        self.memo = {}
        self.bind = {}
        self.sizes = {}

    def size(self, coll):
        if coll not in self.sizes:
            self.sizes[coll] = self.rng.choice([1, 2, 2, 3])
        return self.sizes[coll]

    def conc(self, x):
        if isinstance(x, Elem):
            return (x.coll, self.bind.get(x, 0))
        if isinstance(x, S):
            v = self.ev(x)
            return mpmath.nstr(v, 25)
        if isinstance(x, tuple):
            return tuple(self.conc(y) for y in x)
        return x

    def base(self, a):
        v = self.values.get(a.name)
        if v is None:
            r = self.rng.random()
            scale = self.rng.choice([1, 1, 1, 3, 10])
            v = Fraction(round((0.05 + r) * scale * 2 ** 12), 2 ** 12) if a.pos or a.nonneg \
                else Fraction(round((2 * r - 1) * scale * 2 ** 12) or 1, 2 ** 12)
            self.values[a.name] = v
        return v

    def atom(self, i):
        v = self.memo.get(i)
        if v is not None:
            return v
        a = ATOMS[i]
        k = a.kind
        if k == "var":
            x = self.base(a)
            v = mpmath.mpf(x.numerator) / x.denominator if isinstance(x, (int, Fraction)) else mpmath.mpf(x)
        elif k == "pi":
            v = +mpmath.pi
        elif k == "den":
            v = self.poly(a.args)
        elif k == "sqrt":
            x = self.poly(a.args)
            if x < 0:
                raise ArithmeticError("sqrt of negative")
            v = mpmath.sqrt(x)
        elif k == "abs":
            v = abs(self.poly(a.args))
        elif k == "sin":
            v = mpmath.sin(self.ev(a.args[0]))
        elif k == "cos":
            v = mpmath.cos(self.ev(a.args[0]))
        elif k == "max":
            v = max(self.ev(x) for x in a.args)
        elif k == "min":
            v = min(self.ev(x) for x in a.args)
        elif k == "ind":
            v = mpmath.mpf(1 if self.truth(a.args[0]) else 0)
        elif k == "fn":
            name, args = a.args
            xs = [self.ev(x) if isinstance(x, S) else x for x in args]
            if name == "pow":
                if xs[0] < 0 or (xs[0] == 0 and xs[1] <= 0):
                    raise ArithmeticError("pow domain")
                v = mpmath.power(xs[0], xs[1])
            elif name in ("tanh", "exp", "log", "acos", "asin", "atan"):
                v = getattr(mpmath, name)(xs[0])
                if isinstance(v, mpmath.mpc):
                    raise ArithmeticError("domain")
            elif name == "floor":
                v = mpmath.floor(xs[0])
            else:
                key = (name,) + tuple(self.conc(x) for x in args)
                v = self.values.get(key)
                if v is None:
                    v = _hash01((self.rng.random(), key)) * 2 - 1
                    if a.pos or a.nonneg:
                        v = abs(v) + mpmath.mpf("0.01")
                    self.values[key] = v
        elif k == "sum":
            el, body = a.args
            old, oldmemo = self.bind, self.memo
            v = mpmath.mpf(0)
            for k in range(self.size(el.coll)):
                self.bind = dict(old)
                self.bind[el] = k
                self.memo = {}
                v += self.poly(body)
            self.bind, self.memo = old, oldmemo
        else:
            raise Unsupported("eval of " + k)
        self.memo[i] = v
        return v

    def poly(self, p):
        t = mpmath.mpf(0)
        for m, c in p.items():
            x = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
            for i, e in m:
                x *= self.atom(i) ** e
            t += x
        return t

    def mag(self, p):
        t = mpmath.mpf(0)
        for m, c in p.items():
            x = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
            for i, e in m:
                x *= self.atom(i) ** e
            t += abs(x)
        return t

    def ev(self, s):
        return self.poly(s.p) if isinstance(s, S) else mpmath.mpf(s)

    def truth(self, b):
        if isinstance(b, (bool, _np.bool_)):
            return bool(b)
        if b.op == "rel":
            op, d = b.args
            v = self.ev(d)
            m = self.mag(d.p)
            if abs(v) <= m * mpmath.mpf(10) ** -35:
                v = 0
            return {"lt": v < 0, "le": v <= 0, "eq": v == 0}[op]
        if b.op == "not":
            return not self.truth(b.args[0])
        if b.op == "and":
            return all(self.truth(x) for x in b.args)
        if b.op == "or":
            return any(self.truth(x) for x in b.args)
        if b.op == "var":
            n = self.conc(b.args[0])
            if n not in self.bools:
                self.bools[n] = self.rng.random() < 0.5
            return self.bools[n]
        raise Unsupported("truth of " + b.op)


ENGINE = None


def set_engine(e):
    global ENGINE
    ENGINE = e
