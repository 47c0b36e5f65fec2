"""Boundary reduction: rows and columns of restrained dofs are dropped, all others keep value and order; DOF = 6 n - number of restraints; the case's restraints override the model's."""
from props.asm import *
from vc import idxset

AS = "core.fe_model.assembly.Assembly."
FUNCTIONS = [AS + "assemble_boundary", AS + "__drop_matrix_dof", AS + "__drop_vector_dof", AS + "restraintDOF", AS + "DOF", AS + "__init__"]
ASSUME = ["scipy: duplicate (row, col) entries of a COO matrix add up; V[mask] keeps the rows where the mask holds, in order; numpy operators act elementwise",
          "hids of the nodes of a restraint dictionary are distinct and below the number of nodes (C14, C15)",
          "loop invariant of the index shift (vc/idxset.py): value = x - number of removed indices below x; facts about counts of distinct integers (pigeonhole) are stated there"]
RT_N = {"quick": 150, "thorough": 2000}


def contracts(E):
    am = load("hyperstatic.core.fe_model.assembly")
    rm, rc = elem("restrained node"), elem("case-restrained node")
    for nm, model, cs in (("no restraints", None, None), ("restraints of the model", rm, None), ("restraints of the case", None, rc), ("restraints of the case override", rm, rc)):
        def c(E):
            m = MStub(E)
            m.restrained = model
            lc, other = CStub("case"), CStub("other")
            lc.restrained = cs
            E.assume(m.node_count >= 1)
            if cs is not None:
                E.assume(card(rc) >= 1)
            a = am.Assembly(m, [other, lc])
            R = rset(cs if cs is not None else model) if (cs or model) is not None else idxset.IdxSet([])
            Rm = rset(model) if model is not None else idxset.IdxSet([])
            n6 = m.node_count * 6
            E.eq("DOF = 6 n - number of restrained dofs", a.DOF, n6 - Rm.size())
            e, val, row, col = entries("K")
            K = shim_sp.spr.coo_matrix((val, (row, col)), shape=(n6, n6))
            A = a.assemble_boundary("case", K)
            E.eq("reduced shape", list(A.shape), [n6 - R.size()] * 2)
            r, cc = fn("rowK", e), fn("colK", e)
            keep = conj(neg(R.inset(r)), neg(R.inset(cc)))
            E.eq("u^T A v over the free dofs, renumbered in order", A.bilinear(at("u"), at("v")),
                 Sum(e, S(sym.reduce_ind((ind(keep) * fn("valK", e) * fn("u", r - R.cnt(r)) * fn("v", cc - R.cnt(cc))).p))))
            e, val, row, _ = entries("f")
            f = shim_sp.spr.coo_matrix((val, (row, SList.of_parts([("s", e, [(True, [("c", [0])])])]))), shape=(n6, 1)).tocsr()
            g = a.assemble_boundary("case", f)
            E.eq("reduced vector shape", list(g.shape), [n6 - R.size(), 1])
            r = fn("rowf", e)
            keep = neg(R.inset(r))
            E.eq("reduced load vector", g.bilinear(at("u"), lambda j: S.const(1)), Sum(e, ind(keep) * fn("valf", e) * fn("u", r - R.cnt(r))))
            E.same("argument unchanged", K.bilinear(at("u"), at("v")).p == Sum(elem("entry of K"), fn("valK", elem("entry of K")) * fn("u", fn("rowK", elem("entry of K"))) * fn("v", fn("colK", elem("entry of K")))).p)
            for nm2, arg, el in (("model", (), model), ("case", ("case",), cs)):
                got = a.restraintDOF(*arg)
                E.same(f"restraintDOF lists exactly the restrained dofs ({nm2})", (idxset.of(got).key if el is not None else len(got)) == (rset(el).key if el is not None else 0))
        E.run(nm, c, functions=FUNCTIONS, merge=True)
