"""Beam local frames: x axis from start to end, vertical rule, rotation about the axis, length, 12x12 transformation."""
from vc.api import *

FUNCTIONS = ["core.fe_model.element.line.Line.__init__", "core.fe_model.element.line.Line.length", "core.fe_model.element.line.Line.transform_matrix",
             "core.fe_model.element.line.Line.start/end", "core.fe_model.element.line.beam.Beam.__init__", "core.fe_model.element.line.beam.Beam.rotation",
             "core.fe_model.element.line.simple_beam.SimpleBeam.__init__", "core.fe_model.element.line.simple_beam.SimpleBeam.rotation",
             "core.fe_model.element.Element.get_node_names/node_count/dof/dim", "core.fe_model.model.Model.set_beam_rotation/get_beam_transform_matrix/get_beam_length"]


class Sec:
    pass


def beams():
    lb = load("hyperstatic.core.fe_model.element.line.beam")
    ls = load("hyperstatic.core.fe_model.element.line.simple_beam")
    E, mu, A, I2, I3, J, rho = V("E", "A", "I2", "I3", "J", "rho", pos=True)[0:1] + [var("mu")] + V("A", "I2", "I3", "J", "rho", pos=True)
    s = Sec()
    s.E, s.mu, s.A, s.I22, s.I33, s.J, s.rho, s.G = E, mu, A, I2, I3, J, rho, E / 2 / (1 + mu)
    return {"Beam": lambda i, j: lb.Beam("B1", i, j, s),
            "SimpleBeam": lambda i, j: ls.SimpleBeam("B1", i, j, E, mu, A, I2, I3, J, rho)}, dict(E=E, mu=mu, A=A, I2=I2, I3=I3, J=J, rho=rho)


def contracts(E):
    load("hyperstatic.core.fe_model.element.line")
    n = load("hyperstatic.core.fe_model.node")
    p = V("px", "py", "pz")
    d = V("dx", "dy", "dz")
    q = [a + b for a, b in zip(p, d)]
    th, th2 = var("theta"), var("theta2")
    make, _ = beams()

    for kind, mk in make.items():
        def c(E, vertical):
            tol = S.const(sym.Fraction(1, 10 ** 9))
            E.assume(neg(conj(*[x == 0 for x in d])))
            flat = conj(sabs(d[0]) == 0, sabs(d[1]) == 0)
            if vertical:
                E.assume(flat)
            else:
                E.assume(disj(sabs(d[0]) >= tol, sabs(d[1]) >= tol))
            a, b = n.Node("I", *p), n.Node("J", *q)
            bad, bm = raises(mk, a, b)
            if bad:
                # the three reference points are collinear within the absolute tolerance: element (almost) without length
                ref = [S.const(1), S.const(0), S.const(0)] if vertical else [S.const(0), S.const(0), S.const(1)]
                E.prove("only an element shorter than the tolerance is rejected", conj(*[sabs(x) < 2 * tol for x in cross(d, ref)]))
                return
            L = norm(d)
            E.eq("length", bm.length, L)
            T = bm.local_csys.transform_matrix
            E.eq("local x from start to end", T[0] * L, d)
            E.eq("orthonormal", npo.dot(T, T.T), np.eye(3))
            E.eq("det", np.linalg.det(T), 1)
            if vertical:
                E.eq("vertical: local y is global X", T[1], [1, 0, 0])
            else:
                E.eq("local z is horizontal", T[2][2], 0)
                E.prove("local y points upwards", T[1][2] > 0)
            E.eq("frame origin at midpoint", bm.local_csys.origin, [(x + y) / 2 for x, y in zip(p, q)])
            E.eq("start", bm.start, p)
            E.eq("end", bm.end, q)
            E.same("nodes in order", list(bm.get_node_names()) == ["I", "J"])
            E.same("node_count", bm.node_count == 2 and bm.dof == 12 and bm.name == "B1")
            E.eq("12x12 transformation", dense(bm.transform_matrix), blockdiag(T, 4))
            if not vertical or True:
                from props.C02 import rodrigues
                bm.rotation = th
                W = npo.array([rodrigues([T[0, j] for j in range(3)], th, [T[i, j] for j in range(3)]) for i in range(3)], dtype=object)
                T1 = bm.local_csys.transform_matrix
                E.eq("rotation: x unchanged", T1[0], T[0])
                E.eq("rotation: y turned by theta", T1[1], W[1])
                E.eq("rotation: z turned by theta", T1[2], W[2])
                E.eq("rotation stored", bm.rotation, th)
                E.eq("12x12 transformation after rotation", dense(bm.transform_matrix), blockdiag(T1, 4))
                E.eq("length after rotation", bm.length, L)
        for vert in (False, True):
            E.run(f"{kind} frame" + (" (vertical)" if vert else ""), lambda E, v=vert: c(E, v),
                  case_of={"kind": kind, "p": p, "q": q, "rot": [th]}, functions=FUNCTIONS,
                  hints=[dict(dx=0, dy=0, dz=3), dict(dx=1, dy=2, dz=0), dict(dx=1, dy=0, dz=0), dict(dx=0, dy=0, dz=-2)])

        # re-setting the rotation: the last value counts (general frame along a coordinate direction keeps this small)
        def re(E, kind=kind, mk=mk):
            a, b = n.Node("I", p[0], p[1], p[2]), n.Node("J", p[0] + 3, p[1], p[2] + 4)
            b1, b2 = mk(a, b), mk(a, b)
            b1.rotation = th
            b1.rotation = th2
            b2.rotation = th2
            t1, t2 = b1.local_csys.transform_matrix, b2.local_csys.transform_matrix
            # half-angle atoms of theta, theta2 and theta2-theta: expand the difference
            h1, h2, hd = th / 2, th2 / 2, (th2 - th) / 2
            ex = {sym.ssin(hd).single_atom(): None}
            sub = {}
            sd, cd = ssin(hd), scos(hd)
            S1, C1, S2, C2 = ssin(h1), scos(h1), ssin(h2), scos(h2)
            sgn = 1 if sd.single_atom() is not None else -1
            at = (sd if sgn == 1 else -sd).single_atom()
            sub[at.id] = (S2 * C1 - C2 * S1) * sgn
            sub[cd.single_atom().id] = C2 * C1 + S2 * S1
            w = npo.array([engine.subst(sym.coerce(v), sub) for v in t1.ravel()], dtype=object).reshape(3, 3)
            E.eq("rotation value", b1.rotation, th2)
            for i in range(3):
                E.eq(f"only the last rotation counts, axis {i}", w[i], t2[i])
        def through(E, kind=kind, mk=mk):
            E.assume(var("mu") > -1)
            M = load("hyperstatic.core.fe_model.model").Model()
            xyz = (p[0], p[1], p[2]), (p[0] + 3, p[1], p[2] + 4)
            M.add_node("I", *xyz[0])
            M.add_node("J", *xyz[1])
            _, q = beams()
            M.add_isotropic_material("m", q["rho"], q["E"], q["mu"], S.const(1))
            M.add_beam_section_general("s", "m", q["A"], q["A"], q["A"], q["I2"], q["I3"], q["J"], q["A"], q["A"])
            for b in ("B", "C"):
                M.add_beam(b, "I", "J", "s") if kind == "Beam" else M.add_simple_beam(b, "I", "J", *[q[k] for k in ("E", "mu", "A", "I2", "I3", "J", "rho")])
            M.set_beam_rotation("B", th)
            b1, b2 = mk(n.Node("I", *xyz[0]), n.Node("J", *xyz[1])), mk(n.Node("I", *xyz[0]), n.Node("J", *xyz[1]))
            b1.rotation = th
            E.eq("Model.set_beam_rotation", dense(M.get_beam_transform_matrix("B")), dense(b1.transform_matrix))
            E.eq("other beams not rotated", dense(M.get_beam_transform_matrix("C")), dense(b2.transform_matrix))
            E.eq("Model.get_beam_length", M.get_beam_length("B"), b2.length)
        E.run(f"{kind} rotation through the model", through, case_of={"kind": kind, "p": p, "q": [p[0] + 3, p[1], p[2] + 4], "rot": [th]}, functions=FUNCTIONS)
        E.run(f"{kind} rotation set twice", re, case_of={"kind": kind, "p": p, "q": [p[0] + 3, p[1], p[2] + 4], "rot": [th, th2]}, functions=FUNCTIONS)
