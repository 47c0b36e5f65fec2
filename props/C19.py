"""Global load vector = nodal loads turned by the node frames + condensed beam loads turned by the element frames, placed at their dofs; any number of nodes and beams, every step."""
from props.asm import *
from props.C06 import full
import spec

FUNCTIONS = ["core.fe_model.assembly.Assembly.assemble_f", "core.fe_model.model.Model.get_beam_condensated_f"]
ASSUME = ["scipy: duplicate (row, col) entries of a COO matrix add up", "load case and model enter the unbounded contract through their own contracts (C05, C08, C13, C15, C16)"]
RT_N = {"quick": 120, "thorough": 1500}


def contracts(E):
    am = load("hyperstatic.core.fe_model.assembly")
    for nm, beams, step in (("nodes", False, None), ("nodes and beams", True, None), ("nodes and beams at a time step", True, var("t", nonneg=True))):
        def c(E):
            m = MStub(E, beams=beams, shells=False)
            lc, other = CStub("case"), CStub("other")
            a = am.Assembly(m, [other, lc])
            f = a.assemble_f("case") if step is None else a.assemble_f("case", step)
            t = S.const(0) if step is None else step
            E.eq("shape", list(f.shape), [m.node_count * 6, 1])
            P = npo.dot(m.T("n", m.n, 2).T, lc.get_nodal_f(m.n, t))
            want = Sum(m.n, dot(P, [fn("u", hid(m.n) * 6 + i) for i in range(6)]))
            if beams:
                re = npo.dot(m.Cf(m.b), lc.get_beam_f(m.b, m.get_beam_length(m.b), t))
                want = want + Sum(m.b, dot(npo.dot(m.T("b", m.b, 4).T, re), uvec(m.bh())("u")))
            E.eq("work f . u = work of all nodal and beam loads", f.bilinear(at("u"), lambda j: S.const(1)), want)
        E.run(f"any number of {nm}", c, functions=FUNCTIONS, abstract=True, merge=True)

    L = var("L", pos=True)
    p = V("px", "py", "pz")
    v = dict(zip(("E", "mu", "A", "I2", "I3", "J", "rho"), V("E", pos=True) + V("mu") + V("A", "I2", "I3", "J", "rho", pos=True)))
    F = vec("F", 6)
    q = vec("q", 8)
    fac, fac2 = V("k1", "k2")

    def real(E):
        E.assume(v["mu"] > -1)
        E.assume(L > sym.Fraction(1, 10 ** 6))
        m = load("hyperstatic.core.fe_model.model").Model()
        lp = load("hyperstatic.core.fe_model.load.pattern")
        lc = load("hyperstatic.core.fe_model.load.loadcase").StaticCase("case")
        m.add_node("J", p[0], p[1] + L, p[2])
        m.add_node("I", *p)
        m.add_simple_beam("B", "I", "J", v["E"], v["mu"], v["A"], v["I2"], v["I3"], v["J"], v["rho"])
        a1, a2 = lp.LoadPattern("p"), lp.LoadPattern("q")
        a1.set_nodal_load("I", *F)
        a2.set_beam_load_dist("B", **dict(zip(["pi", "qi2", "qi3", "ti", "pj", "qj2", "qj3", "tj"], q)))
        lc.add_pattern(a1, fac)
        lc.add_pattern(a2, fac2)
        f = am.Assembly(m, [lc]).assemble_f("case").bilinear(at("u"), lambda j: S.const(1))
        R = np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]])
        w = npo.dot(blockdiag(R, 4).T, npo.array(spec.distributed(q, L), dtype=object) * fac2)
        W = npo.concatenate([w[6:], w[:6] + F * fac])
        E.eq("work of the load vector in any displacement", f, dot(W, [fn("u", S.const(i)) for i in range(12)]))
    E.run("a member along y", real, functions=FUNCTIONS, merge=True,
          case_of={"nodes": [["J", [p[0], p[1] + L, p[2]]], ["I", list(p)]], "beams": [{"name": "B", "ends": ["I", "J"], "kind": "SimpleBeam", "s": v, "rel": [], "rot": None}],
                   "pats": [{"name": "p", "factor": fac, "nodal": {"I": list(F)}, "dist": {}, "conc": {}, "curve": None},
                            {"name": "q", "factor": fac2, "nodal": {}, "dist": {"B": list(q)}, "conc": {}, "curve": None}]})
