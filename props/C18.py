"""Global mass = nodal masses at their dofs + sum over all beams of G^T T^T M T G; total translational mass is preserved; any number of nodes and beams."""
from props.asm import *

FUNCTIONS = ["core.fe_model.assembly.Assembly.assemble_M", "core.fe_model.node.Node.integrate_M", "core.fe_model.model.Model.get_node_M/get_beam_M"]
ASSUME = ["scipy: duplicate (row, col) entries of a COO matrix add up", "members with releases: their mass enters through the condensation contract (C08) applied to the mass matrix",
          "use_load_as_mass is not covered (the option is not implemented: it raises)"]
RT_N = {"quick": 120, "thorough": 1500}


def contracts(E):
    E._sameobj = lambda a, b: a.shape == b.shape and all(sym.coerce(x).p == sym.coerce(y).p for x, y in zip(a.ravel(), b.ravel()))
    am = load("hyperstatic.core.fe_model.assembly")
    for nm, kw in (("nodal masses", dict(beams=False, shells=False)), ("nodes and beams", {})):
        def c(E):
            m = MStub(E, **kw)
            a = am.Assembly(m, [])
            M = a.assemble_M()
            E.eq("shape", list(M.shape), [m.node_count * 6] * 2)
            want = Sum(m.n, dot([fn("mass", m.n, S.const(i)) * fn("u", hid(m.n) * 6 + i) for i in range(6)], [fn("v", hid(m.n) * 6 + i) for i in range(6)]))
            if m.beams:
                U = uvec(m.bh())
                T = m.T("b", m.b, 4)
                want = want + Sum(m.b, quad(m.mat("CMb", m.b, 12, m.PAT), npo.dot(T, U("u")), npo.dot(T, U("v"))))
            E.eq("u^T M v", M.bilinear(at("u"), at("v")), want)
            indices_ok(E, "indices in range", M, None)
        E.run(f"any number of {nm}", c, functions=FUNCTIONS, abstract=True)

    L = var("L", pos=True)
    p = V("px", "py", "pz")
    v = dict(zip(("E", "mu", "A", "I2", "I3", "J", "rho"), V("E", pos=True) + V("mu") + V("A", "I2", "I3", "J", "rho", pos=True)))

    def real(E):
        E.assume(v["mu"] > -1)
        E.assume(L > sym.Fraction(1, 10 ** 6))
        m = load("hyperstatic.core.fe_model.model").Model()
        m.add_node("J", p[0], p[1] + L, p[2])
        m.add_node("I", *p)
        m.add_simple_beam("B", "I", "J", v["E"], v["mu"], v["A"], v["I2"], v["I3"], v["J"], v["rho"])
        ms = vec("m", 6)
        m.set_nodal_mass("I", *ms)
        a = am.Assembly(m, [])
        M = dense(a.assemble_M())
        E.eq("symmetric", M, M.T)
        for k in range(3):
            u = npo.array([1 if i % 6 == k else 0 for i in range(12)], dtype=object)
            E.eq(f"total mass in direction {k + 1}", dot(u, npo.dot(M, u)), ms[k] + v["rho"] * v["A"] * L)
        W = npo.zeros((12, 12), dtype=object)
        for i in range(12):
            W[i, i] = v["rho"] * v["A"] * L / 2 if i % 6 < 3 else sym.Fraction(1, 10 ** 12)
        for i in range(6):
            W[6 + i, 6 + i] = W[6 + i, 6 + i] + ms[i]
        E.eq("mass matrix", M, W)
    E.run("a member along y", real, functions=FUNCTIONS,
          case_of={"nodes": [["J", [p[0], p[1] + L, p[2]]], ["I", list(p)]], "beams": [{"name": "B", "ends": ["I", "J"], "kind": "SimpleBeam", "s": v, "rel": [], "rot": None}], "mass": {"I": list(vec("m", 6))}})
