"""Global stiffness = sum over all elements of G^T T^T K T G at the dofs of the element's nodes, for any number of nodes, beams and shells."""
from props.asm import *
from props.C06 import full
import spec

FUNCTIONS = ["core.fe_model.assembly.Assembly.__init__", "core.fe_model.assembly.Assembly.assemble_K", "core.fe_model.assembly.Assembly.DOF/node_count"]
ASSUME = ["scipy: duplicate (row, col) entries of a COO matrix add up", "the model enters the unbounded contract through its own contract: hids in [0,n), element matrices and frames per element (C05, C06, C08, C15, C16, C32)",
          "in the unbounded contract element matrices have a fixed sparsity pattern with arbitrary entries"]
RT_N = {"quick": 120, "thorough": 1500}


def contracts(E):
    E._sameobj = lambda a, b: a.shape == b.shape and all(sym.coerce(x).p == sym.coerce(y).p for x, y in zip(a.ravel(), b.ravel()))
    am = load("hyperstatic.core.fe_model.assembly")
    for nm, kw in (("beams", dict(shells=False)), ("shells", dict(beams=False)), ("beams and shells", {})):
        def c(E):
            m = MStub(E, **kw)
            a = am.Assembly(m, [])
            K = a.assemble_K()
            n6 = m.node_count * 6
            E.eq("shape", list(K.shape), [n6, n6])
            want = S.const(0)
            if m.beams:
                U = uvec(m.bh())
                T = m.T("b", m.b, 4)
                C = m.mat("CKb", m.b, 12, m.PAT)
                want = want + Sum(m.b, quad(C, npo.dot(T, U("u")), npo.dot(T, U("v"))))
            if m.shells:
                for k, cond in ((4, m.is4()), (3, neg(m.is4()))):
                    U = uvec(m.sh(k))
                    T = m.T("s", m.s, 2 * k)
                    Ks = m.mat("Ks", m.s, 6 * k, [(i, j) for i in range(6 * k) for j in range(6 * k) if (i + 2 * j) % 5 == 0])
                    want = want + Sum(m.s, ind(cond) * quad(Ks, npo.dot(T, U("u")), npo.dot(T, U("v"))))
            E.eq("u^T K v = sum of element energies", K.bilinear(at("u"), at("v")), want)
            indices_ok(E, "indices in range", K, n6)
        E.run(f"any number of {nm}", c, functions=FUNCTIONS, abstract=True)
