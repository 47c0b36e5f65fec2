"""Collections of symbolic size and the summarisation of loops over them.

A symbolic loop body is executed on the arbitrary element of the collection, once for every
local path, from a havocked loop-carried state.  What the body does to that state is
generalised by induction on the number of elements already processed:
  * a number / array whose new value is  old + inc(element)      ->  init + SUM(inc)
  * a list to which items(element) are appended                  ->  prefix ++ concat(items)
  * a dict in which entries(element) are set, distinct keys      ->  prefix, entries(element)
Anything else (a dependence on the havocked prefix, break, return) is unsupported, and the
obligation stays undecided."""
import numpy as _np
from . import sym
from .sym import S, SBool, Elem, Unsupported, coerce, conj, neg


def _eng():
    return sym.ENGINE


_uid = [0]


class Poison:
    """a variable whose value after / before a generic iteration is unknown"""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported(f"loop-carried variable {object.__getattribute__(self, '_n')} read")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __call__ = __iadd__ = __contains__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __matmul__ = __rmatmul__ = __neg__ = __float__ = __int__ = _bad

    def __eq__(self, o):
        self._bad()

    def __hash__(self):
        return id(self)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        self._bad()


UNBOUND = Poison("<unbound>")


def is_symbolic(x):
    return getattr(x, "_vc_symbolic", False)


class _Tracked:
    """shared mutation tracking of SList / SDict"""

    def _init_track(self):
        e = _eng()
        self.born = len(e.loops) if e is not None else 0
        self.bornid = e.loops[-1].uid if e is not None and e.loops else 0

    def _outer(self):
        """active loops this object is outside of"""
        e = _eng()
        if e is None or not e.loops:
            return ()
        if self.born and (self.born > len(e.loops) or e.loops[self.born - 1].uid != self.bornid):
            return e.loops          # created in a loop that ended
        return e.loops[self.born:]

    def _mut(self):
        if _eng() is not None and _eng().guards:
            raise Unsupported("update of a collection in a conditional block")
        for c in self._outer():
            c.touch(self)

    def _rd(self):
        for c in self._outer():
            c.reads.add(id(self))
            c.keep.append(self)


class SList(list, _Tracked):
    def __new__(cls, it=(), *a):
        if hasattr(it, "_vc_list"):
            return it._vc_list()
        return list.__new__(cls)

    def __init__(self, it=()):
        self._sym = None
        self._init_track()
        if isinstance(it, SList):
            it._rd()
            if it._sym is not None:
                list.__init__(self)
                self._sym = list(it._sym)
                return
        elif is_symbolic(it):
            list.__init__(self)
            self._sym = list(parts_of(it))
            return
        list.__init__(self, it)

    @property
    def _vc_symbolic(self):
        return self._sym is not None

    @staticmethod
    def over(el):
        r = SList()
        r._sym = [("s", el, [(True, [("c", [el])])])]
        return r

    @staticmethod
    def of_parts(ps):
        r = SList()
        if all(p[0] == "c" for p in ps):
            for p in ps:
                list.extend(r, p[1])
        else:
            r._sym = list(ps)
        return r

    def parts(self):
        if self._sym is not None:
            return self._sym
        return [("c", list(list.__iter__(self)))] if list.__len__(self) else []

    def concrete_list(self):
        self._rd()
        if self._sym is not None:
            raise Unsupported("symbolic-length list used as a concrete one")
        return list(list.__iter__(self))

    _pi = None
    _plain = False

    def _perindex(self, n, i, alts):
        """the list has one entry per index 0..n-1 (loop rule of idxset)"""
        if self._sym is not None or list.__len__(self):
            raise Unsupported("extending a list by one entry per index")
        self._pi = (n, i, alts)
        self._sym = [("perindex", None, [])]

    def _rq(self):
        """loop over a symbolic range consuming this sorted index list"""
        e = _eng()
        if e is not None and getattr(e, "rloops", None) and self._sym is not None and len(self._sym) == 1 and self._sym[0][0] == "sorted":
            return e.rloops[-1]
        return None

    def _addparts(self, ps):
        e = _eng()
        if e is not None and getattr(e, "rloops", None) and self.born <= len(e.loops) and self._sym is None and not e.guards:
            if not all(p[0] == "c" for p in ps) or list.__len__(self):
                raise Unsupported("list update in a loop over a symbolic range")
            for p in ps:
                e.rloops[-1].append(self, p[1])
            return
        g = _eng().guards if _eng() is not None else None
        if g:
            ps = [("s", None, [(conj(*g), list(ps))])]
            for c in self._outer():
                c.touch(self)
        else:
            self._mut()
        if self._sym is None and all(p[0] == "c" for p in ps):
            for p in ps:
                list.extend(self, p[1])
            return
        cur = self.parts()
        self._sym = list(cur)
        list.clear(self)
        for p in ps:
            if p[0] == "c" and self._sym and self._sym[-1][0] == "c":
                self._sym[-1] = ("c", self._sym[-1][1] + list(p[1]))
            else:
                self._sym.append(p)

    def append(self, x):
        self._addparts([("c", [x])])

    def extend(self, xs):
        self._addparts(parts_of(xs))

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, xs):
        if not isinstance(xs, list):
            return NotImplemented
        r = SList(self)
        r.extend(xs)
        return r

    def insert(self, i, x):
        self._mut()
        if self._sym is not None:
            raise Unsupported("insert into a symbolic list")
        list.insert(self, i, x)

    def pop(self, *a):
        if a == (0,) and self._rq() is not None:
            return self._rq().poplist(self)
        self._mut()
        if self._sym is not None or self._outer():
            raise Unsupported("pop from a symbolic list")
        return list.pop(self, *a)

    def remove(self, x):
        self._mut()
        if self._sym is not None or self._outer():
            raise Unsupported("remove from a symbolic list")
        return list.remove(self, x)

    def sort(self, **k):
        self._mut()
        if self._sym is not None:
            self._sym = [("sorted", self._sym)]
            return
        list.sort(self, **k)

    def reverse(self):
        self._mut()
        if self._sym is not None:
            raise Unsupported("reverse of a symbolic list")
        list.reverse(self)

    def clear(self):
        self._mut()
        if self._outer():
            raise Unsupported("clear in a symbolic loop")
        self._sym = None
        list.clear(self)

    def __setitem__(self, i, v):
        self._mut()
        if self._sym is not None or self._outer():
            raise Unsupported("store into a symbolic list")
        list.__setitem__(self, i, v)

    def __getitem__(self, i):
        if self._sym is not None and isinstance(i, int) and i == 0 and self._rq() is not None:
            return self._rq().head(self)
        self._rd()
        if self._sym is not None:
            raise Unsupported("index into a symbolic list")
        r = list.__getitem__(self, i)
        return SList(r) if isinstance(i, slice) else r

    def __iter__(self):
        self._rd()
        if self._sym is not None:
            raise Unsupported("uninstrumented iteration over a symbolic list")
        return list.__iter__(self)

    def __len__(self):
        self._rd()
        if self._sym is not None:
            raise Unsupported("uninstrumented len of a symbolic list")
        return list.__len__(self)

    def __bool__(self):
        if self._rq() is not None:
            return self._rq().nonempty(self)
        self._rd()
        if self._sym is not None:
            return bool(length(self) != 0)
        return list.__len__(self) != 0

    def __eq__(self, o):
        self._rd()
        if self._sym is None and isinstance(o, list) and not is_symbolic(o):
            return list.__eq__(self, o)
        if isinstance(o, list) and not is_symbolic(o) and list.__len__(o) == 0:
            return not bool(self)
        if not isinstance(o, list):
            return False
        raise Unsupported("comparison of symbolic lists")

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __contains__(self, x):
        self._rd()
        if self._sym is None:
            return list.__contains__(self, x)
        raise Unsupported("membership in a symbolic list")

    def copy(self):
        return SList(self)

    def __deepcopy__(self, memo):
        import copy
        if self._sym is not None:
            return SList(self)
        return SList([copy.deepcopy(x, memo) for x in list.__iter__(self)])


class SDict(dict, _Tracked):
    def __init__(self, *a, **k):
        self._sym = None          # list of ("s", elem, [(cond, [(k, v)])]) ; concrete entries live in dict
        self._init_track()
        if a and isinstance(a[0], SDict) and a[0]._sym is not None:
            a[0]._rd()
            dict.__init__(self, dict.items(a[0]), **k)
            self._sym = list(a[0]._sym)
        elif a and is_symbolic(a[0]):
            dict.__init__(self)
            self._sym = [self._pairs(p) for p in parts_of(a[0])]
        else:
            dict.__init__(self, *a, **k)

    @property
    def _vc_symbolic(self):
        return self._sym is not None

    @staticmethod
    def _pairs(p):
        """dict() of a sequence with one (key, value) pair per element, distinct keys"""
        if p[0] != "s" or p[1] is None:
            raise Unsupported("dict() of a symbolic sequence")
        alts = []
        for cond, inner in p[2]:
            items = []
            for q in norm_inner(inner):
                if q[0] != "c":
                    raise Unsupported("dict() of a nested symbolic sequence")
                items += q[1]
            if len(items) != 1 or not isinstance(items[0], tuple) or len(items[0]) != 2:
                raise Unsupported("dict() of a symbolic sequence")
            k = items[0][0]
            if k is not p[1]:
                d = coerce(k)
                idx = sym.fn("idx", p[1], nonneg=True)
                if d is None or not _monotone(d, idx):
                    raise Unsupported("dict() with keys that may coincide")
            alts.append((cond, items))
        return ("s", p[1], alts)

    def __setitem__(self, k, v):
        outer = self._outer()
        if _eng() is not None and _eng().guards:
            raise Unsupported("update of a dict in a conditional block")
        if outer:
            self._mut()
            self._delta.append((k, v))
            return
        if self._sym is not None and isinstance(k, Elem):
            if self._find(k)[0]:
                raise Unsupported("overwriting an entry of a symbolic dict")
        dict.__setitem__(self, k, v)

    def _find(self, k):
        """(found, value)"""
        if self._outer() and getattr(self, "_delta", None) is not None:
            for kk, v in reversed(self._delta):
                if kk is k or (not isinstance(kk, Elem) and not isinstance(k, Elem) and kk == k):
                    return True, v
        if dict.__contains__(self, k):
            return True, dict.__getitem__(self, k)
        for p in (self._sym or ()):
            _, el, alts = p
            for cond, kvs in alts:
                for kk, v in kvs:
                    if kk is k:
                        if cond is True or _eng().decide(cond):
                            return True, v
        if self._sym and not isinstance(k, Elem):
            for p in self._sym:
                for cond, kvs in p[2]:
                    for kk, v in kvs:
                        if isinstance(kk, (Elem, str)) and isinstance(k, (str,)) and kk != k and not isinstance(kk, Elem):
                            continue
                        raise Unsupported("lookup of an unrelated key in a symbolic dict")
        return False, None

    _delta = None

    def _rdkey(self, k):
        """reading the loop element's own key: no other element has it (keys are distinct)"""
        for c in self._outer():
            if k is not c.el:
                c.reads.add(id(self))
                c.keep.append(self)

    def __getitem__(self, k):
        self._rdkey(k)
        f, v = self._find(k)
        if f:
            return v
        raise KeyError(k)

    def __contains__(self, k):
        self._rdkey(k)
        return self._find(k)[0]

    def get(self, k, d=None):
        self._rdkey(k)
        f, v = self._find(k)
        return v if f else d

    def setdefault(self, k, d=None):
        f, v = self._find(k)
        if f:
            return v
        self[k] = d
        return d

    def pop(self, k, *d):
        if self._sym is not None or self._outer():
            raise Unsupported("pop from a symbolic dict")
        return dict.pop(self, k, *d)

    def update(self, *a, **k):
        for x in a:
            for kk, v in (x.items() if hasattr(x, "items") else x):
                self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def parts(self):
        ps = [("c", list(dict.items(self)))] if dict.__len__(self) else []
        return ps + list(self._sym or [])

    def _view(self, f):
        self._rd()
        if self._sym is None and not (self._outer() and getattr(self, "_delta", None)):
            return None
        if self._outer() and getattr(self, "_delta", None):
            raise Unsupported("iterating a dict that the loop updates")
        return SList.of_parts(map_parts(self.parts(), f))

    def items(self):
        v = self._view(lambda kv: kv)
        return dict.items(self) if v is None else v

    def keys(self):
        v = self._view(lambda kv: kv[0])
        if v is None:
            return dict.keys(self)
        return KeysView(self, v)

    def values(self):
        v = self._view(lambda kv: kv[1])
        return dict.values(self) if v is None else v

    def __iter__(self):
        self._rd()
        if self._sym is not None:
            raise Unsupported("uninstrumented iteration over a symbolic dict")
        return dict.__iter__(self)

    def __len__(self):
        self._rd()
        if self._sym is not None or self._outer():
            raise Unsupported("uninstrumented len of a symbolic dict")
        return dict.__len__(self)

    def __bool__(self):
        self._rd()
        if self._sym is not None:
            if dict.__len__(self):
                return True
            return bool(length(self) != 0)
        return dict.__len__(self) != 0

    def __eq__(self, o):
        self._rd()
        if self._sym is None and not is_symbolic(o):
            return dict.__eq__(self, o)
        if isinstance(o, dict) and not is_symbolic(o) and dict.__len__(o) == 0:
            return not bool(self)
        raise Unsupported("comparison of symbolic dicts")

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def copy(self):
        return SDict(self)

    def __deepcopy__(self, memo):
        import copy
        r = SDict()
        for k, v in dict.items(self):
            dict.__setitem__(r, k, copy.deepcopy(v, memo))
        r._sym = None if self._sym is None else list(self._sym)
        return r


class KeysView(SList):
    def __init__(self, d, lst):
        SList.__init__(self)
        self._sym = lst._sym
        if lst._sym is None:
            list.extend(self, list.__iter__(lst))
        self._d = d

    def __contains__(self, k):
        return k in self._d


def _monotone(d, idx):
    """d = a + b * idx with b > 0 and nothing else that depends on the element"""
    i = next(iter(idx.atoms())).id
    b = {}
    for m, c in d.p.items():
        e = dict(m).get(i, 0)
        if e == 1:
            b[tuple(x for x in m if x[0] != i)] = c
        elif e or sym.deps(S({m: c})):
            return False
    return bool(b) and not sym.deps(S(b)) and sym.surely_pos(S(b))


def map_parts(ps, f):
    out = []
    for p in ps:
        if p[0] == "c":
            out.append(("c", [f(x) for x in p[1]]))
        elif p[0] == "s":
            out.append(("s", p[1], [(c, map_parts(norm_inner(inner), f)) for c, inner in p[2]]))
        else:
            raise Unsupported("mapping over a sorted symbolic list")
    return out


def norm_inner(inner):
    """dict alternatives hold plain (k, v) pairs; list alternatives hold parts"""
    if inner and not (isinstance(inner[0], tuple) and inner[0] and isinstance(inner[0][0], str) and inner[0][0] in ("c", "s", "sorted") and len(inner[0]) in (2, 3)
                      and isinstance(inner[0][-1], list)):
        return [("c", list(inner))]
    return inner


def parts_of(x):
    if isinstance(x, SList):
        x._rd()
        return list(x.parts())
    if isinstance(x, SDict):
        x._rd()
        if x._sym is None:
            return [("c", list(dict.keys(x)))]
        return map_parts(x.parts(), lambda kv: kv[0])
    if isinstance(x, SymArray):
        return list(x.ps)
    xs = list(x)
    return [("c", xs)] if xs else []


def length(x):
    if is_symbolic(x):
        if isinstance(x, SList) and x._pi is not None:
            return x._pi[0]
        if isinstance(x, SList) and x._rq() is not None:
            raise Unsupported("len of a list that is being consumed")
        t = S.const(0)
        if isinstance(x, SymRange):
            return x.stop - x.start
        e = _eng()
        for p in (x.parts() if not isinstance(x, SymArray) else x.ps):
            t = t + _plen(p)
        if isinstance(x, _Tracked):
            x._rd()
            for c in x._outer():
                if id(x) in c.touched:
                    raise Unsupported("len of a list the loop updates")
        return t
    if isinstance(x, _Tracked):
        for c in x._outer():
            # number of entries a previous iteration may have added: unknown prefix length
            if c.may_touch(x):
                if id(x) in c.touched and (getattr(x, "_delta", None) or isinstance(x, SList)):
                    raise Unsupported("len of a collection the loop updates")
                c.lenreads.add(id(x))
                c.keep.append(x)
                base = dict.__len__(x) if isinstance(x, dict) else list.__len__(x)
                return coerce(base) + c.index()
    return len(x)


def _plen(p):
    if p[0] == "c":
        return S.const(len(p[1]))
    if p[0] == "sorted":
        t = S.const(0)
        for q in p[1]:
            t = t + _plen(q)
        return t
    t = S.const(0)
    for cond, inner in p[2]:
        n = S.const(0)
        for q in norm_inner(inner):
            n = n + _plen(q)
        t = t + (sym.ind(cond) * n if cond is not True else n)
    return sym.Sum(p[1], t) if p[1] is not None else t


class SymRange:
    _vc_symbolic = True

    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, start, stop):
        self.start, self.stop = start, stop

    def lvec(self):
        from .idxset import LVec
        return LVec(self.stop - self.start, lambda i: self.start + i)

    def map(self, g):
        return self.lvec().map(g)

    def __add__(self, o):
        return self.lvec() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.lvec() - o

    def __rsub__(self, o):
        return o - self.lvec()

    def __mul__(self, o):
        return self.lvec() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.lvec() / o

    def __neg__(self):
        return -self.lvec()

    def astype(self, *a):
        return self.lvec()


class SymArray:
    """array of symbolic length (elements given by parts)"""
    _vc_symbolic = True

    def __init__(self, ps):
        self.ps = ps

    @staticmethod
    def of(x):
        if isinstance(x, SymArray):
            return SymArray(list(x.ps))
        return SymArray(parts_of(x))

    def parts(self):
        return self.ps

    @property
    def size(self):
        return length(self)

    @property
    def shape(self):
        return (length(self),)

    def copy(self):
        return SymArray(list(self.ps))

    def tolist(self):
        return SList.of_parts(self.ps)

    __array_ufunc__ = None

    def _cmp(self, o, op, swap=False):
        from .idxset import Mask
        o = coerce(o)
        if o is None:
            raise Unsupported("comparison of arrays of symbolic length")
        return Mask(map_parts(self.ps, lambda x: sym.rel(op, o, coerce(x)) if swap else sym.rel(op, coerce(x), o)))

    def __gt__(self, o):
        return self._cmp(o, "lt", True)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __ge__(self, o):
        return self._cmp(o, "le", True)

    def __le__(self, o):
        return self._cmp(o, "le")

    def _arith(self, o, f):
        if isinstance(o, SymArray):
            from .idxset import zip_parts
            return SymArray(zip_parts(self.ps, o.ps, f))
        c = coerce(o)
        if c is None:
            raise Unsupported("arithmetic of arrays of symbolic length")
        return SymArray(map_parts(self.ps, lambda x: f(coerce(x), c)))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __getitem__(self, k):
        from .idxset import Mask, select
        if isinstance(k, Mask):
            if any(k is m for m, _ in getattr(self, "_lent", ())):
                pass
            return Selected(self, k)
        raise Unsupported("indexing an array of symbolic length")

    def __setitem__(self, k, v):
        from .idxset import Mask, zip_parts
        if isinstance(k, Mask) and isinstance(v, Selected) and v.base is self and v.mask is k:
            sh = v.shift
            self.ps = zip_parts(self.ps, k.ps, lambda x, m: sym.ite(m, coerce(x) + sh, coerce(x)))
            return
        raise Unsupported("store into an array of symbolic length")


class Grid(SymArray):
    """start + step * index, for index = 0 .. n-1 (n symbolic, or too large to unroll)"""
    count = 0

    def __init__(self, start, step, n):
        Grid.count += 1
        self.el = sym.elem(f"grid{Grid.count}")
        self.idx = sym.fn("idx", self.el, nonneg=True)
        self.start, self.step, self.n = start, step, coerce(n)
        sym.ENGINE.assume(sym.rel("le", self.idx + 1, self.n))
        self.ps = [("s", self.el, [(True, [("c", [start + step * self.idx])])])]

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)


class Selected(SymArray):
    """array[mask]: the selected entries; remembers where it came from for array[mask] op= c"""

    def __init__(self, base, mask, shift=None):
        from .idxset import select
        self.base, self.mask, self.shift = base, mask, S.const(0) if shift is None else shift
        self.ps = select(base.ps, mask)
        if self.shift.p:
            self.ps = map_parts(self.ps, lambda x: coerce(x) + self.shift)

    def _arith(self, o, f):
        c = coerce(o) if not isinstance(o, SymArray) else None
        if c is not None:
            sh = f(S.const(0), c)
            if not (f(S.const(5), c) - sh - 5).p:
                return Selected(self.base, self.mask, self.shift + sh)
        return SymArray._arith(self, o, f)

    def copy(self):
        return SymArray(list(self.ps))


def sym_isin(a, b):
    from . import idxset
    R = idxset.of(b)
    if isinstance(a, SymRange):
        if a.start.p:
            raise Unsupported("membership test over a shifted range")
        return idxset.RangeMask(a.stop, R, True)
    if isinstance(a, SymArray):
        return idxset.Mask(map_parts(a.ps, R.inset))
    raise Unsupported("membership test over arrays of symbolic length")


# ------------------------------------------------------------------ loops
class LoopCtx:
    def __init__(self, el):
        _uid[0] += 1
        self.uid = _uid[0]
        self.el = el
        self.touched = {}       # id -> (obj, snapshot)
        self.alltouched = {}
        self.reads = set()
        self.lenreads = set()
        self.keep = []
        self.deltas = []        # per local path: (cond, {id: delta}, {name: value})
        self.havocs = {}
        self.hatoms = set()

    def index(self):
        return sym.fn("idx", self.el, nonneg=True)

    def may_touch(self, x):
        return True

    def touch(self, x):
        if id(x) in self.touched:
            return
        if isinstance(x, SList):
            snap = (list(list.__iter__(x)), None if x._sym is None else list(x._sym))
            self.touched[id(x)] = (x, snap)
            list.clear(x)
            x._sym = None
        else:
            snap = (dict(dict.items(x)), None if x._sym is None else list(x._sym), getattr(x, "_delta", None))
            self.touched[id(x)] = (x, snap)
            x._delta = []
        self.alltouched[id(x)] = x

    def end_path(self, cond):
        d = {}
        for i, (x, snap) in self.touched.items():
            if isinstance(x, SList):
                d[i] = x.parts()
                list.clear(x)
                list.extend(x, snap[0])
                x._sym = snap[1]
            else:
                d[i] = list(x._delta)
                x._delta = snap[2]
        self.touched = {}
        return d


class LoopIter:
    """iteration over a symbolic sequence from instrumented code"""

    def __init__(self, it, site):
        self.site = site
        self.seq = it
        self.eng = _eng()
        if self.eng is None or not self.eng.frames:
            raise Unsupported("symbolic loop outside a path")
        self.queue = self._flatten(parts_of(it) if not isinstance(it, SymRange) else self._rng(it))
        self.ctx = None
        self.final = {}
        self.initial = None
        self.mode = None

    def _rng(self, r):
        raise Unsupported("loop over a symbolic range")

    def _items(self, ps):
        """the items of one element on this path: guards are decided"""
        out = []
        for q in ps:
            if q[0] == "c":
                out.extend(q[1])
            elif q[0] == "s" and q[1] is None:
                for cond, inner in q[2]:
                    if cond is True or self.eng.decide(cond):
                        out.extend(self._items(norm_inner(inner)))
            else:
                raise Unsupported("nested symbolic sequence")
        return out

    def _flatten(self, ps):
        out = []
        for p in ps:
            if p[0] == "sorted":
                raise Unsupported("loop over a sorted symbolic list")
            out.append(p)
        return out

    def __iter__(self):
        for p in self.queue:
            if p[0] == "c":
                for x in p[1]:
                    self.mode = "c"
                    yield x
                    self.mode = None
                continue
            _, el, alts = p
            if el is None:
                raise Unsupported("loop over a conditionally filled list")
            for c in self.eng.loops:
                if c.el is el:
                    raise Unsupported("nested loops over the same collection")
            ctx = LoopCtx(el)
            self.ctx = ctx
            pend = [[]]
            first = True
            n = 0
            from .engine import Frame
            while pend:
                n += 1
                if n > 200:
                    raise Unsupported("too many paths through a loop body")
                tr = pend.pop()
                f = Frame(tr, "loop")
                self.eng.frames.append(f)
                self.eng.loops.append(ctx)
                depth = (len(self.eng.frames), len(self.eng.loops))
                items = None
                # choose the alternative
                for cond, inner in alts:
                    if cond is True or self.eng.decide(cond):
                        items = norm_inner(inner)
                        break
                xs = []
                xs.extend(self._items(items or []))
                self.started = False
                self.left = None
                for x in xs:
                    self.mode = "s"
                    yield x
                    self.mode = None
                if (len(self.eng.frames), len(self.eng.loops)) != depth:
                    raise Unsupported("unbalanced symbolic loop")
                cond = conj(*f.pc) if f.pc else True
                ctx.deltas.append((cond, ctx.end_path(cond), self._values(ctx)))
                self.eng.loops.pop()
                self.eng.frames.pop()
                pend.extend(f.pending)
            self._summarise(ctx)
            self.ctx = None

    # -- loop-carried locals -------------------------------------------------
    def enter(self, names, vals, inplace):
        """called at the top of the body with the current values of the captured names"""
        if self.mode != "s":
            return vals
        if self.started:
            return vals
        self.started = True
        if self.initial is None or self.initial[0] is not self.ctx:
            cur = dict(zip(names, vals))
            cur.update(self.final)
            self.initial = (self.ctx, cur)
            self.inplace = inplace
            self.arrs = {}
        init = self.initial[1]
        out = []
        for n in names:
            v = init[n]
            out.append(self._havoc(n, v))
        self.names = names
        return tuple(out)

    def _havoc(self, n, v):
        ctx = self.ctx
        if n in ctx.havocs:
            h = ctx.havocs[n]
            if isinstance(h, tuple) and h[0] == "inplace":
                _, arr, vars_, init = h
                for k, x in enumerate(vars_):
                    arr.reshape(-1)[k] = x
                return arr
            if isinstance(h, tuple) and h[0] == "rebind":
                return h[1].copy()
            return h
        h = v
        if v is UNBOUND:
            h = Poison(n)
        elif isinstance(v, bool) or isinstance(v, SBool):
            h = Poison(n)
        elif isinstance(v, (int, S, _np.integer, float)):
            h = sym.fresh(f"h_{n}")
            ctx.hatoms |= {a.id for a in h.atoms()}
        elif isinstance(v, _np.ndarray) and v.dtype == object:
            vs = [sym.fresh(f"h_{n}") for _ in range(v.size)]
            for x in vs:
                ctx.hatoms |= {a.id for a in x.atoms()}
            if not v.flags.c_contiguous:
                raise Unsupported("accumulating into a non-contiguous view")
            init = [x for x in v.ravel()]
            ctx.havocs[n] = ("inplace", v, vs, init)
            for k, x in enumerate(vs):
                v.reshape(-1)[k] = x
            return v
        elif isinstance(v, (SList, SDict)):
            h = v
        elif hasattr(v, "_vc_havoc"):
            h = v._vc_havoc(n)
        else:
            h = Poison(n)
        ctx.havocs[n] = h
        return h

    def leave(self, vals):
        """called when the body ends (also through continue)"""
        if self.mode != "s":
            if self.mode == "c":
                self.final = {}
            return
        self.left = dict(zip(self.names, vals))
        # keep a copy of array contents: they are restored for the next local path
        for n, v in self.left.items():
            if isinstance(v, _np.ndarray):
                self.left[n] = (v, v.copy())

    def _values(self, ctx):
        return self.left

    def abort(self, exc):
        if self.mode != "s" or isinstance(exc, (Unsupported,)) or not isinstance(exc, Exception):
            return
        e = self.eng
        e._record("no exception in loop body", "refuted", "execution", 0.0, e._anycase(), f"{type(exc).__name__}: {exc}")
        raise Unsupported(f"exception inside a symbolic loop: {type(exc).__name__}: {exc}") from exc

    def _dep(self, x, ctx):
        """does a value depend on the havocked prefix?"""
        if not ctx.hatoms:
            return False
        return _uses(x, ctx.hatoms)

    def _summarise(self, ctx):
        el = ctx.el
        for i in ctx.alltouched:
            if i in ctx.reads:
                raise Unsupported("loop body reads a collection it updates")
        # collections
        for i, x in ctx.alltouched.items():
            alts = []
            for cond, d, _ in ctx.deltas:
                if i in d:
                    if self._dep(d[i], ctx) or self._dep(cond, ctx):
                        raise Unsupported("collection update depends on loop-carried state")
                    alts.append((cond, d[i]))
            if isinstance(x, SList):
                x._addparts([("s", el, alts)])
            else:
                if x._outer():
                    raise Unsupported("nested symbolic update of a dict")
                for cond, kvs in alts:
                    for k, v in kvs:
                        if sym.deps(k) != frozenset([el]) and not isinstance(k, Elem):
                            raise Unsupported("symbolic dict keys that are not the element's own")
                x._sym = list(x._sym or []) + [("s", el, alts)]
        # number of entries read while growing: must be one entry per element
        for i in ctx.lenreads:
            x = ctx.alltouched.get(i)
            if x is None:
                raise Unsupported("len of a collection in a symbolic loop")
            for cond, d, _ in ctx.deltas:
                if len(d.get(i, [])) != 1:
                    raise Unsupported("len of a collection that grows irregularly")
        # locals
        res = {}
        if self.initial is not None and self.initial[0] is ctx:
            init = self.initial[1]
            for n in self.names:
                res[n] = self._final(n, init[n], ctx)
        self.final.update(res)

    def _final(self, n, v0, ctx):
        h = ctx.havocs.get(n)
        el = ctx.el
        outs = [(cond, (vals or {}).get(n, None)) for cond, _, vals in ctx.deltas]
        outs = [(c, (h if not isinstance(h, tuple) else (h[1], None)) if v is None else v) for c, v in outs]
        if isinstance(h, tuple) and h[0] == "inplace":
            _, arr, vs, init = h
            total = [coerce(x) for x in init]
            rebound = None
            for cond, o in outs:
                if not (isinstance(o, tuple) and isinstance(o[0], _np.ndarray)):
                    raise Unsupported(f"loop variable {n} changes type")
                obj, content = o
                if content is None:
                    continue
                if content.shape != arr.shape:
                    raise Unsupported(f"loop variable {n} changes shape")
                if obj is not arr:
                    rebound = obj
                if self._dep(cond, ctx):
                    raise Unsupported("branch depends on loop-carried state")
                for k, x in enumerate(content.ravel()):
                    inc = coerce(x) - vs[k]
                    if self._dep(inc, ctx):
                        raise Unsupported(f"loop variable {n} is not a plain accumulation")
                    if inc.p:
                        total[k] = total[k] + sym.Sum(el, sym.S(sym.reduce_eq((sym.ind(cond) * inc).p)) if cond is not True else inc)
            if rebound is not None:
                for k, x in enumerate(init):
                    arr.reshape(-1)[k] = x
                r = _np.empty(arr.shape, dtype=object)
                for k, x in enumerate(total):
                    r.reshape(-1)[k] = x
                return r
            for k, x in enumerate(total):
                arr.reshape(-1)[k] = x
            return arr
        if isinstance(h, S):
            total = coerce(v0)
            if all(isinstance(coerce(o), S) for _, o in outs if not isinstance(o, (tuple, Poison))) and not any(isinstance(o, (tuple, Poison)) for _, o in outs):
                ok = True
                # maximum / minimum accumulation
                mx = [self._ext(coerce(o), h, ctx) for _, o in outs]
                if len(outs) == 1 and outs[0][0] is True and mx[0] is not None:
                    kind, body = mx[0]
                    return sym.fn(kind + "OVER", coerce(v0), sym.fn("bodyof", el, body))
                for cond, o in outs:
                    inc = coerce(o) - h
                    if self._dep(inc, ctx) or self._dep(cond, ctx):
                        ok = False
                        break
                    if inc.p:
                        total = total + sym.Sum(el, sym.S(sym.reduce_eq((sym.ind(cond) * inc).p)) if cond is not True else inc)
                if ok:
                    return total
            return Poison(n)
        if isinstance(h, (SList, SDict)):
            if all(o is h for _, o in outs):
                return h
            return Poison(n)
        if hasattr(h, "_vc_havoc"):
            return h._vc_generalise(v0, outs, ctx, self)
        return Poison(n)

    def _ext(self, v, h, ctx):
        a = v.single_atom()
        if a is not None and a.kind in ("max", "min") and any(x.p == h.p for x in a.args):
            rest = [x for x in a.args if x.p != h.p]
            if len(rest) == 1 and not self._dep(rest[0], ctx):
                return a.kind.upper(), rest[0]
        return None

    def result(self, names, vals):
        """values of the captured names after the loop"""
        return tuple(self.final.get(n, v) for n, v in zip(names, vals))


def _uses(x, ids):
    if isinstance(x, S):
        return any(_auses(sym.ATOMS[i], ids) for m in x.p for i, _ in m)
    if isinstance(x, SBool):
        return any(_uses(y, ids) for y in x.args)
    if isinstance(x, (list, tuple)):
        return any(_uses(y, ids) for y in x)
    if isinstance(x, dict):
        if x and isinstance(next(iter(x)), tuple):
            return any(_auses(sym.ATOMS[i], ids) for m in x for i, _ in m if isinstance(i, int))
        return any(_uses(y, ids) for y in x.values())
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return any(_uses(y, ids) for y in x.ravel())
    if hasattr(x, "_vc_values"):
        return _uses(x._vc_values(), ids)
    return False


_AU = {}


def _auses(a, ids):
    if a.id in ids:
        return True
    if a.kind in ("var", "pi"):
        return False
    k = a.id
    s = _AU.get(k)
    if s is None:
        s = _allatoms(a)
        _AU[k] = s
    return bool(s & ids)


def _allatoms(a):
    out = {a.id}

    def go(x):
        if isinstance(x, S):
            for m in x.p:
                for i, _ in m:
                    out.update(_AU.get(i) or _allatoms(sym.ATOMS[i]))
        elif isinstance(x, SBool):
            for y in x.args:
                go(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for m in x:
                for i, _ in m:
                    out.update(_AU.get(i) or _allatoms(sym.ATOMS[i]))
    go(a.args)
    _AU[a.id] = out
    return out
