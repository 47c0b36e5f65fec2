"""Beam stiffness = exact Euler-Bernoulli stiffness (Hermite polynomials); symmetric; rigid motions free; strain energy a sum of squares."""
from vc.api import *
from props.C05 import beams
import spec

FUNCTIONS = ["core.fe_model.element.line.beam.Beam.integrate_K", "core.fe_model.element.line.simple_beam.SimpleBeam.integrate_K",
             "core.fe_model.element.line.Line.length", "core.fe_model.section.beam_section.BeamSection (contract: stored values)",
             "core.fe_model.model.Model.get_beam_K", "core.fe_model.assembly.Assembly.get_beam_K"]


def full(d, n=12):
    m = npo.zeros((n, n), dtype=object)
    for (i, j), v in d.items():
        m[i, j] = v
    return m


def member(kind, skew=True):
    """a beam between symbolic points; returns (beam, parameters, length, end difference)"""
    n = load("hyperstatic.core.fe_model.node")
    p, d = V("px", "py", "pz"), V("dx", "dy", "dz")
    make, q = beams()
    return n, p, d, make[kind], q


def place(E, d):
    """not vertical, longer than the tolerance"""
    tol = sym.Fraction(1, 10 ** 5)
    E.assume(disj(sabs(d[0]) >= tol, sabs(d[1]) >= tol))


HINT = [dict(dx=1, dy=2, dz=0), dict(dx=3, dy=-1, dz=2)]


def contracts(E):
    for kind in ("Beam", "SimpleBeam"):
        n, p, d, mk, q = member(kind)
        L = norm(d)

        def c(E):
            place(E, d)
            E.assume(q["mu"] > -1)
            bm = mk(n.Node("I", *p), n.Node("J", *[a + b for a, b in zip(p, d)]))
            K = dense(bm.integrate_K())
            G = q["E"] / 2 / (1 + q["mu"])
            W = full(spec.stiffness(q["E"], G, q["A"], q["I2"], q["I3"], q["J"], L))
            E.same("12x12", K.shape == (12, 12))
            E.eq("Euler-Bernoulli stiffness", K, W)
            E.eq("symmetric", K, K.T)
            # rigid motions
            for k in range(3):
                u = npo.array([1 if i % 6 == k else 0 for i in range(12)], dtype=object)
                E.eq(f"rigid translation {k + 1}", npo.dot(K, u), [0] * 12)
            R = {0: {3: 1, 9: 1}, 1: {4: 1, 10: 1, 8: -L}, 2: {5: 1, 11: 1, 7: L}}
            for k, r in R.items():
                u = npo.array([r.get(i, 0) for i in range(12)], dtype=object)
                E.eq(f"rigid rotation {k + 1}", npo.dot(K, u), [0] * 12)
            # strain energy as a sum of squares with positive coefficients
            u = vec("u", 12)
            en = dot(u, npo.dot(K, u))
            t3 = (u[5] + u[11]) / 2 - (u[7] - u[1]) / L
            t2 = (u[4] + u[10]) / 2 + (u[8] - u[2]) / L
            sq = q["E"] * q["A"] / L * (u[6] - u[0]) ** 2 + G * q["J"] / L * (u[9] - u[3]) ** 2 \
                + q["E"] * q["I3"] / L * ((u[11] - u[5]) ** 2 + 12 * t3 ** 2) + q["E"] * q["I2"] / L * ((u[10] - u[4]) ** 2 + 12 * t2 ** 2)
            E.eq("strain energy is a sum of squares", en, sq)
            again = dense(bm.integrate_K())
            E.eq("repeatable", again, K)
        E.run(f"{kind}.integrate_K", c, case_of={"kind": kind, "p": p, "q": [a + b for a, b in zip(p, d)], "s": q}, hints=HINT, functions=FUNCTIONS)

    # the same object through the model and the assembly (contract: pure delegation, local axes by default)
    m = load("hyperstatic.core.fe_model.model")
    asm = load("hyperstatic.core.fe_model.assembly")
    p, d = V("px", "py", "pz"), V("dx", "dy", "dz")
    q = {k: var(k, pos=(k != "mu")) for k in ("E", "mu", "A", "I2", "I3", "J", "rho")}

    def c(E):
        place(E, d)
        E.assume(q["mu"] > -1)
        M = m.Model()
        M.add_node("I", *p)
        M.add_node("J", *[a + b for a, b in zip(p, d)])
        M.add_simple_beam("B", "J", "I", q["E"], q["mu"], q["A"], q["I2"], q["I3"], q["J"], q["rho"])
        L = norm(d)
        W = full(spec.stiffness(q["E"], q["E"] / 2 / (1 + q["mu"]), q["A"], q["I2"], q["I3"], q["J"], L))
        E.eq("Model.get_beam_K", dense(M.get_beam_K("B")), W)
        E.eq("Assembly.get_beam_K", dense(asm.Assembly(M, []).get_beam_K("B")), W)
        E.eq("Model.get_beam_length", M.get_beam_length("B"), L)
    E.run("Model.get_beam_K", c, case_of={"kind": "SimpleBeam", "p": p, "q": [a + b for a, b in zip(p, d)], "s": q}, hints=HINT, functions=FUNCTIONS)
