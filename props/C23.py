"""Modal analysis: the stored eigenpairs are those of the reduced stiffness and mass of the case, min(n_modes, free dofs) of them; periods and frequencies follow; mode shapes are read at the right dofs."""
from props.asm import *
from props.C22 import PStub
from vc import idxset, shim_np

PO = "core.fe_post."
FUNCTIONS = ["core.fe_solver.dynamic.ModalSolver.solve", "core.fe_solver.dynamic.ModalSolver.solve_eigen", "core.fe_solver.Solver.__init__", PO + "ResultResolver.load_displacement",
             PO + "node.NodeResultResolver.resolve_nodal_displacement", PO + "structure.StructureResultResolver.resolve_modal_frequency"]
ASSUME = ["the assembly enters through its contract (C17-C20)", "scipy.sparse.linalg.eigsh(K, k, M, sigma=0, which='LM') for k < n and scipy.linalg.eigh(K, M) return the k (all n) smallest eigenpairs, ascending, M-orthonormal: K v = w M v",
          "no base case (prestress is not implemented)", "a case that has restraints restrains at least one degree of freedom"]
RT_N = {"quick": 60, "thorough": 700}


def contracts(E):
    dy = load("hyperstatic.core.fe_solver.dynamic")
    rm, rc = elem("restrained node"), elem("case-restrained node")
    one = lambda j: S.const(1)
    for nm, model, cs in (("restraints of the model", rm, None), ("restraints of the case", rm, rc), ("no restraints", None, None)):
        for how, ask in (("solve", None), ("solve_eigen", None), ("solve_eigen", var("asked", pos=True))):
            def c(E):
                a = AStub(E, model, cs)
                R = a.R
                if cs is not None:
                    E.assume(R.size() >= 1)
                n = a.n6 - R.size()
                k = var("n_modes", pos=True)
                a.setting = {"n_modes": k, "base_case": None, "algorithm": "eigen", "mass_source": "mass", "use_load_as_mass": False}
                shim_np.FS["w/m.asb"] = a
                shim_sp._Sl.calls.clear()
                s = dy.ModalSolver("w", "m.asb")
                ok = getattr(s, how)("case", *([] if ask is None else [ask]))
                k = k if ask is None else ask
                E.same("returns True", ok is True)
                E.same("one eigenvalue problem", len(shim_sp._Sl.calls) == 1)
                what, K, M, kk, sigma, which, kw, w, v = shim_sp._Sl.calls[0]
                E.same("extraction of the smallest eigenvalues", what == "eigh" and not kw or what == "eigsh" and sigma is not None and not sym.coerce(sigma).p and which == "LM" and not kw)
                for A, B, q in ((K, a.assemble_K(), "stiffness"), (M, a.assemble_M(), "mass")):
                    E.eq(f"reduced {q} of the case", A.bilinear(at("u"), at("v")), a.assemble_boundary("case", B).bilinear(at("u"), at("v")))
                    E.eq(f"size of the {q}", list(A.shape), [n, n])
                E.eq("number of modes: as requested, at most the free dofs", kk, n if E.decide(rel("lt", n, k)) else k)
                o, d = shim_np.FS.get("w/case.o.npy"), shim_np.FS.get("w/case.d.npy")
                E.same("stored per case", isinstance(o, idxset.LVec) and isinstance(d, idxset.GRows))
                i = var("mode", nonneg=True)
                E.eq("eigenvalues stored", [o.n, o.at(i)], [kk, w.at(i)])
                E.eq("mode shapes stored row first", list(d.shape) + [d[i, :].at(var("dof"))], [kk, n, fn(v.name, i, var("dof"))])
            E.run(f"{how}, {nm}" + ("" if ask is None else ", modes asked for"), c, functions=FUNCTIONS, merge=True)

    def c(E):
        a = PStub(E, None, None)
        shim_np.FS["w/m.asb"] = a
        k = var("k", pos=True)
        shim_np.FS["w/case.o.npy"] = idxset.LVec(k, lambda i: fn("o2", i, pos=True))
        r = load("hyperstatic.core.fe_post.structure").StructureResultResolver("w", "m.asb")
        f = r.resolve_modal_frequency("case")
        i = var("mode", nonneg=True)
        g = lambda q: f[q].at(i)
        E.eq("one value per mode", [f[q].n for q in ("omega", "f", "T")], [k, k, k])
        E.eq("omega is the root of the eigenvalue", g("omega") * g("omega"), fn("o2", i, pos=True))
        E.prove("omega is positive", rel("lt", S.const(0), g("omega")))
        E.eq("f = omega / 2 pi", g("f") * 2 * PI, g("omega"))
        E.eq("T = 1 / f", g("T") * g("f"), 1)
    E.run("frequencies", c, functions=FUNCTIONS, abstract=True)

    for nm, model, cs in (("restraints of the model", rm, None), ("restraints of the case", rm, rc)):
        def c(E):
            a = PStub(E, model, cs)
            E.assume(a.R.size() >= 1)
            shim_np.FS["w/m.asb"] = a
            shim_np.FS["w/case.d.npy"] = idxset.GRows("phi", a.n6 - a.R.size(), var("k", pos=True))
            r = load("hyperstatic.core.fe_post.node").NodeResultResolver("w", "m.asb")
            s = var("mode", pos=True)
            got = r.resolve_nodal_displacement(a.node, "case", s)
            h = fn("hid", a.node, nonneg=True) * 6
            E.eq("mode shape at a node: zero at restrained dofs, else the component of the free dof", got,
                 [ite(a.R.inset(h + j), 0, fn("phi", s - 1, h + j - a.R.cnt(h + j))) for j in range(6)])
        E.run(f"mode shape at a node, {nm}", c, functions=FUNCTIONS, merge=True)
