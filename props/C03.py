"""Coordinate systems from a normal and a guide vector; re-definition by three points; moving the origin."""
from vc.api import *

FUNCTIONS = ["common.csys.Cartesian.create_by_normal", "common.csys.Cartesian.set_by_3pts", "common.csys.Cartesian.origin.setter"]


def contracts(E):
    m = load("hyperstatic.common.csys")
    O = V("ox", "oy", "oz")
    n = V("nx", "ny", "nz")
    g = V("gx", "gy", "gz")

    def cn(guide, kind):
        def c(E):
            E.assume(neg(conj(*[x == 0 for x in n])))
            if guide is g:
                E.assume(neg(conj(*[x == 0 for x in g])))
            G = guide if guide is not None else [S.const(0), S.const(0), S.const(1)]
            args = (tuple(O), tuple(n)) + ((tuple(guide),) if guide is not None else ())
            par = conj(*[x == 0 for x in cross(G, n)])
            bad, k = raises(m.Cartesian.create_by_normal, *args)
            if bad:
                return          # within the tolerance of parallel; the run-time contract bounds how far
            E.prove("a guide parallel to the normal is rejected", neg(par))
            T = k.transform_matrix
            E.eq("z axis parallel to the normal", cross(T[2], n), [0, 0, 0])
            E.prove("z axis along the normal", dot(T[2], n) > 0)
            E.eq("x axis perpendicular to the guide", dot(T[0], G), 0)
            E.prove("guide on the positive y side", dot(T[1], G) > 0)
            E.eq("orthonormal", npo.dot(T, T.T), np.eye(3))
            E.eq("det", np.linalg.det(T), 1)
            E.eq("origin", k.origin, O)
        E.run("create_by_normal" + kind, c, case_of={"k": "normal", "O": O, "n": n, "g": guide}, functions=FUNCTIONS[:1])

    cn(None, " (default guide)")
    cn(g, "")

    a = V("ax", "ay", "az")
    b = V("bx", "by", "bz")
    A = [x + y for x, y in zip(O, a)]
    B = [x + y for x, y in zip(O, b)]

    def s3(E):
        k = m.Cartesian((4, 5, 6), (5, 5, 6), (4, 6, 6), "nm")
        nn = cross(a, b)
        bad, r = raises(k.set_by_3pts, O, A, B)
        T = k.transform_matrix
        if bad:
            tol = load("hyperstatic.common.tolerance").Tolerance.abs_tol()
            E.eq("a rejected redefinition leaves the axes unchanged", T, np.eye(3))
            E.eq("a rejected redefinition leaves the origin unchanged", k.origin, [4, 5, 6])
            E.eq("a rejected redefinition leaves x,y,z unchanged", npo.array([k.x, k.y, k.z]), np.eye(3))
            return
        E.prove("collinear points are rejected", neg(conj(*[sabs(x) == 0 for x in nn])))
        E.eq("orthonormal", npo.dot(T, T.T), np.eye(3))
        E.eq("det", np.linalg.det(T), 1)
        E.eq("origin", k.origin, O)
        E.eq("x parallel to OA", cross(T[0], a), [0, 0, 0])
        E.prove("x along OA", dot(T[0], a) > 0)
        E.eq("B in the xy plane", dot(T[2], b), 0)
        E.prove("B on the positive y side", dot(T[1], b) > 0)
        E.eq("x,y,z expose the new axes", npo.array([k.x, k.y, k.z]), T)
        E.same("name kept", k.name == "nm")
    E.run("set_by_3pts", s3, case_of={"k": "set3", "O": O, "A": A, "B": B}, functions=FUNCTIONS[1:2])

    p = V("px", "py", "pz")

    def so(E):
        bad, k = raises(m.Cartesian, O, A, B)
        if bad:
            raise engine.Infeasible()
        T0 = k.transform_matrix.copy()
        k.origin = tuple(p)
        E.eq("origin moved", k.origin, p)
        E.eq("axes unchanged", k.transform_matrix, T0)
    E.run("origin setter", so, case_of={"k": "origin", "O": O, "A": A, "B": B, "p": p}, functions=FUNCTIONS[2:])
