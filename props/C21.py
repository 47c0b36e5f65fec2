"""Linear static solution: K_free d_free = f_free with the assembled matrices, restrained dofs exactly zero; stored per case; any model size."""
from props.asm import *
from vc import idxset

AS = "core.fe_model.assembly.Assembly."
FUNCTIONS = ["core.fe_solver.static.StaticSolver.solve_linear", "core.fe_solver.Solver.__init__", AS + "save"]
ASSUME = ["the assembly enters through its contract (C17-C20)", "scipy.sparse.linalg.spsolve(A, b) returns x with A x = b (A non-singular, as for every stable structure)", "element matrices are symmetric (C06, C08, C32), so the solver's (K+K^T)/2 is K",
          "loop invariants of vc/idxset.py: before dof i the sorted list of restrained dofs has exactly its entries >= i left and the solution vector was consumed i - #(restrained < i) times",
          "a case that has restraints restrains at least one degree of freedom"]
RT_N = {"quick": 60, "thorough": 800}


def contracts(E):
    st = load("hyperstatic.core.fe_solver.static")
    rm, rc = elem("restrained node"), elem("case-restrained node")
    for nm, model, cs in (("restraints of the model", rm, None), ("restraints of the case", rm, rc), ("no restraints", None, None)):
        def c(E):
            a = AStub(E, model, cs)
            R = a.R
            if cs is not None:
                E.assume(R.size() >= 1)
            shim_np_FS()["w/m.asb"] = a
            shim_sp._Sl.calls.clear()
            s = st.StaticSolver("w", "m.asb")
            E.same("assembly read back", s.assembly is not None)
            ok = s.solve_linear("case")
            E.same("returns True", ok is True)
            E.same("one linear solve", len(shim_sp._Sl.calls) == 1)
            A, b, x = shim_sp._Sl.calls[0]
            n6 = a.n6
            K, f = a.assemble_boundary("case", a.assemble_K()), a.assemble_boundary("case", a.assemble_f("case"))
            half = S.const(1) / 2
            E.eq("solved with the reduced stiffness (K+K^T)/2", A.bilinear(at("u"), at("v")), half * (K.bilinear(at("u"), at("v")) + K.bilinear(at("v"), at("u"))))
            E.eq("solved for the reduced load", b.bilinear(at("u"), lambda j: S.const(1)), f.bilinear(at("u"), lambda j: S.const(1)))
            E.eq("size of the system", list(A.shape), [n6 - R.size()] * 2)
            d = shim_np_FS().get("w/case.d.npy")
            E.same("displacements stored under the case name", isinstance(d, idxset.PerIndex))
            E.eq("stored row of all dofs", list(d.shape), [1, n6])
            _, i, alts = d.f
            inn = R.inset(i)
            for cond, v in alts:
                E.eq("restrained dof is zero, a free dof gets its own component", S(sym.reduce_ind((ind(cond) * (coerce(v) - ite(inn, 0, x.at(i - R.cnt(i))))).p)) if inn is not False else coerce(v) - x.at(i), 0)
        E.run(f"any model, {nm}", c, functions=FUNCTIONS, merge=True)


def coerce(x):
    return sym.coerce(x)


def shim_np_FS():
    from vc import shim_np
    return shim_np.FS
