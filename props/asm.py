"""Contracts of Model and LoadCase as seen by the assembly: any number of nodes, beams, shells; element matrices are arbitrary."""
from vc.api import *

NB = var("N", pos=True)


def hid(node):
    return fn("hid", node, nonneg=True)


class MStub:
    """Model contract: names per kind, hid of every node in [0, n), element matrices and transformations per element"""

    def __init__(self, E, beams=True, shells=True, masses=True):
        self.E = E
        self.n, self.b, self.s = elem("node"), elem("beam"), elem("shell")
        self.beams, self.shells = beams, shells
        self.node_count = card(self.n)

    def is4(self):
        return bvar(("four nodes", self.s))

    # hids
    def get_node_names(self):
        return SList.over(self.n)

    def get_beam_names(self):
        return SList.over(self.b) if self.beams else SList()

    def get_shell_names(self):
        return SList.over(self.s) if self.shells else SList()

    def get_node_hid(self, n):
        return hid(n)

    def bh(self):
        return [fn("hid", "start", self.b, nonneg=True), fn("hid", "end", self.b, nonneg=True)]

    def sh(self, k):
        return [fn("hid", c, self.s, nonneg=True) for c in "ijkl"[:k]]

    def get_beam_node_hids(self, b):
        assert b is self.b
        return SList(self.bh())

    def get_shell_node_hids(self, s):
        assert s is self.s
        return SList(self.sh(4 if self.E.decide(self.is4()) else 3))

    # frames
    def rot(self, what, el):
        return npo.array([[fn("R" + what, el, S.const(i), S.const(j)) for j in range(3)] for i in range(3)], dtype=object)

    def T(self, what, el, k):
        return blockdiag(self.rot(what, el), k)

    def get_node_transform_matrix(self, n):
        return self.T("n", n, 2)

    def get_beam_transform_matrix(self, b):
        return shim_sp.spr.csr_matrix(self.T("b", b, 4))

    def get_shell_transform_matrix(self, s):
        return shim_sp.spr.csr_matrix(self.T("s", s, 8 if self.E.decide(self.is4()) else 6))

    def mat(self, what, el, k, only=None):
        m = np.zeros((k, k))
        for i in range(k):
            for j in range(k):
                if only is None or (i, j) in only:
                    m[i, j] = fn(what, el, S.const(i), S.const(j))
        return m

    PAT = [(i, j) for i in range(12) for j in range(12) if (i + j) % 3 == 0 or i == j]

    def _bm(self, k, b, condensate, local):
        x = shim_sp.spr.csr_matrix(self.mat(("C" if condensate else "") + k, b, 12, self.PAT))
        T = self.get_beam_transform_matrix(b)
        return x if local else T.T * x * T

    def get_beam_K(self, b, condensate=False, local=True):
        return self._bm("Kb", b, condensate, local)

    def get_beam_M(self, b, condensate=False, local=True):
        return self._bm("Mb", b, condensate, local)

    def get_beam_condensated_matrix(self, b, X):
        """condensation of a matrix of this beam: an arbitrary function of the given matrix"""
        x = dense(X)
        k = "Kb" if self.E._sameobj(x, self.mat("Kb", b, 12, self.PAT)) else "Mb" if self.E._sameobj(x, self.mat("Mb", b, 12, self.PAT)) else None
        if k is None:
            raise ValueError("condensation of a matrix that is not the element's")
        return shim_sp.spr.csr_matrix(self.mat("C" + k, b, 12, self.PAT))

    def Cf(self, b):
        """the linear map of end loads to condensed end loads of a beam (releases): arbitrary"""
        return self.mat("Cf", b, 12, [(i, j) for i in range(12) for j in range(12) if i == j or (i + j) % 6 == 0])

    def get_beam_condensated_f(self, b, re):
        return npo.dot(self.Cf(b), npo.asarray(re).reshape(12))

    def get_shell_K(self, s):
        k = 24 if self.E.decide(self.is4()) else 18
        return shim_sp.spr.csr_matrix(self.mat("Ks", s, k, [(i, j) for i in range(k) for j in range(k) if (i + 2 * j) % 5 == 0]))

    def get_node_M(self, n):
        return shim_sp.spr.diags(npo.array([fn("mass", n, S.const(i)) for i in range(6)], dtype=object), format="coo")

    def get_beam_length(self, b):
        return fn("len", b, pos=True)

    restrained = None

    def get_nodal_restraint_dict(self):
        return SDict() if self.restrained is None else rdict(self.restrained)


def uvec(hids):
    """components of an arbitrary global vector at the dofs of the given nodes"""
    return lambda nm: npo.array([fn(nm, h * 6 + k) for h in hids for k in range(6)], dtype=object)


def at(nm):
    return lambda i: fn(nm, sym.coerce(i))


def quad(M, u, v):
    t = S.const(0)
    for i in range(M.shape[0]):
        for j in range(M.shape[1]):
            if sym.coerce(M[i, j]).p:
                t = t + u[i] * sym.coerce(M[i, j]) * v[j]
    return t


def indices_ok(E, name, K, n):
    """every stored index is a dof of one of the n nodes: 6*hid + k with 0 <= k < 6"""
    ok = True
    for conds, x in K.indices():
        x = sym.coerce(x)
        hs = [a for a in x.atoms() if a.kind == "fn" and a.args[0] == "hid"]
        k = x - sum((S.of(a) * 6 for a in hs), S.const(0))
        if len(hs) != 1 or not k.isconst() or not (0 <= k.cval() < 6):
            ok = False
    E.same(name, ok)


def rdict(el):
    """restraints: any number of nodes, six arbitrary flags each"""
    d = SDict()
    d._sym = [("s", el, [(True, [(el, npo.array(flags(el), dtype=object))])])]
    return d


def flags(el):
    return [bvar(("fixed", el, i)) for i in range(6)]


def rset(el):
    """the restrained degrees of freedom, as specified"""
    from vc.idxset import IdxSet
    return IdxSet([("s", el, [(f, [("c", [hid(el) * 6 + j])]) for j, f in [(j, f)]]) for j, f in enumerate(flags(el))])


def entries(what, cols=True):
    """a sparse matrix of any size with any number of entries"""
    e = elem("entry of " + what)
    mk = lambda w: SList.of_parts([("s", e, [(True, [("c", [fn(w + what, e)])])])])
    return e, mk("val"), mk("row"), mk("col")


class CStub:
    """contract of a load case: nodal load and beam load of every name at every step (C13)"""

    def __init__(self, name="case"):
        self.name = name
        self.restrained = None
        self.use_load_as_mass = False

    def get_nodal_f(self, n, time_step=0):
        return npo.array([fn("f", self.name, n, S.const(time_step) if isinstance(time_step, int) else time_step, S.const(i)) for i in range(6)], dtype=object)

    def get_beam_f(self, b, l, time_step=0):
        return npo.array([fn("q", self.name, b, l, S.const(time_step) if isinstance(time_step, int) else time_step, S.const(i)) for i in range(12)], dtype=object)

    def get_nodal_restraint_dict(self):
        return SDict() if self.restrained is None else rdict(self.restrained)


class AStub:
    """contract of Assembly (C17-C20): global matrices with any number of entries, reduction to the free dofs"""

    def __deepcopy__(self, memo):
        return self                     # a contract has no state of its own to share

    def __init__(self, E, model, cs):
        from vc import idxset
        self.E, self.model, self.cs = E, model, cs
        self.node_count = card(elem("node"))
        E.assume(self.node_count >= 1)
        self.n6 = self.node_count * 6
        self.Rm = rset(model) if model is not None else idxset.IdxSet([])
        self.R = rset(cs) if cs is not None else self.Rm
        self.DOF = self.n6 - self.Rm.size()
        self.reduced = []

    def _mat(self, what):
        e, val, row, col = entries(what)
        return shim_sp.spr.coo_matrix((val, (row, col)), shape=(self.n6, self.n6))

    def assemble_K(self):
        return self._mat("K")

    def assemble_M(self, casename=None):
        return self._mat("M")

    def assemble_f(self, casename, time_step=0):
        e, val, row, _ = entries("f" + casename)
        return shim_sp.spr.coo_matrix((val, (row, SList.of_parts([("s", e, [(True, [("c", [0])])])]))), shape=(self.n6, 1)).tocsr()

    def assemble_boundary(self, casename, A):
        from vc import idxset
        R = self.R if casename == "case" else self.Rm
        out = []
        for s, d, r, c in A.trip:
            m = shim_sp.Mask_(r, R)
            if isinstance(A.shape[1], S):
                m = m & shim_sp.Mask_(c, R)
            sh = lambda x: sym.coerce(x) - R.cnt(x)
            from vc.coll import map_parts
            cc = idxset.select(c, m)
            out.append((s, idxset.select(d, m), map_parts(idxset.select(r, m), sh), map_parts(cc, sh) if isinstance(A.shape[1], S) else cc))
        vecs = not isinstance(A.shape[1], S)
        k = self.n6 - R.size()
        return shim_sp.OMat(out, (k, 1 if vecs else k), "dense" if vecs else "csr")

    def restraintDOF(self, casename=None):
        el = self.model if casename is None else self.cs if casename == "case" else None
        if el is None:
            return SList()
        return SList.of_parts([("s", el, [(True, [("s", None, [(f, [("c", [hid(el) * 6 + j])])]) for j, f in enumerate(flags(el))])])])

    def get_loadcase_setting(self, casename):
        return self.setting
