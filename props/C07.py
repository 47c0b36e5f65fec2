"""Beam mass matrices: consistent = exact Hermite/linear integration of rho*A (torsion rho*J); lumped = half the member mass at each end."""
from vc.api import *
from props.C06 import member, place, full, HINT
import spec

FUNCTIONS = ["core.fe_model.element.line.beam.Beam.integrate_M", "core.fe_model.element.line.simple_beam.SimpleBeam.integrate_M", "core.fe_model.model.Model.get_beam_M",
             "core.fe_model.element.line.Line.length"]


def contracts(E):
    m = load("hyperstatic.core.fe_model.model")
    for kind in ("Beam", "SimpleBeam"):
        n, p, d, mk, q = member(kind)
        L = norm(d)
        case = {"kind": kind, "p": p, "q": [a + b for a, b in zip(p, d)], "s": q}

        def c(E):
            place(E, d)
            bm = mk(n.Node("I", *p), n.Node("J", *[a + b for a, b in zip(p, d)]))
            M = dense(bm.integrate_M(consistent=True))
            rho, A, J = q["rho"], q["A"], q["J"]
            E.same("12x12", M.shape == (12, 12))
            E.eq("consistent mass", M, full(spec.mass_consistent(rho, A, J, L)))
            E.eq("symmetric", M, M.T)
            for k in range(3):
                u = npo.array([1 if i % 6 == k else 0 for i in range(12)], dtype=object)
                E.eq(f"consistent mass of a unit translation {k + 1}", dot(u, npo.dot(M, u)), rho * A * L)
            # kinetic energy of a rigid rotation about each end-fixed axis
            u = npo.array([{4: 1, 10: 1, 8: -L}.get(i, 0) for i in range(12)], dtype=object)
            E.eq("rigid rotation about local 2: rho A l^3/3", dot(u, npo.dot(M, u)), rho * A * L * L * L / 3)
            D = dense(bm.integrate_M())
            W = npo.zeros((12, 12), dtype=object)
            for i in range(12):
                W[i, i] = rho * A * L / 2 if i % 6 < 3 else sym.Fraction(1, 10 ** 12)
            E.eq("lumped mass (rotations 1e-12)", D, W)
            E.eq("repeatable", dense(bm.integrate_M()), W)
        E.run(f"{kind}.integrate_M", c, case_of=case, hints=HINT, functions=FUNCTIONS)
    p, d = V("px", "py", "pz"), V("dx", "dy", "dz")
    q = {k: var(k, pos=(k != "mu")) for k in ("E", "mu", "A", "I2", "I3", "J", "rho")}

    def c(E):
        place(E, d)
        M = m.Model()
        M.add_node("I", *p)
        M.add_node("J", *[a + b for a, b in zip(p, d)])
        M.add_simple_beam("B", "I", "J", q["E"], q["mu"], q["A"], q["I2"], q["I3"], q["J"], q["rho"])
        D = dense(M.get_beam_M("B"))
        E.eq("Model.get_beam_M translations", [D[i, i] for i in (0, 1, 2, 6, 7, 8)], [q["rho"] * q["A"] * norm(d) / 2] * 6)
        E.eq("Model.get_beam_M off-diagonal", [D[i, j] for i in range(12) for j in range(12) if i != j], [0] * 132)
    E.run("Model.get_beam_M", c, case_of={"kind": "SimpleBeam", "p": p, "q": [a + b for a, b in zip(p, d)], "s": q}, hints=HINT, functions=FUNCTIONS)
