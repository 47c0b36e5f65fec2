"""Coordinate system from three points: Cartesian(O, A, B)."""
from vc.api import *

FUNCTIONS = ["common.csys.Cartesian.__init__", "common.csys.Cartesian.transform_matrix/origin/x/y/z/name"]


def contracts(E):
    m = load("hyperstatic.common.csys")
    O = V("ox", "oy", "oz")
    a = V("ax", "ay", "az")
    b = V("bx", "by", "bz")
    A = [x + y for x, y in zip(O, a)]
    B = [x + y for x, y in zip(O, b)]

    def c(E):
        n = cross(a, b)
        bad, k = raises(m.Cartesian, O, A, B, "csys1")
        tol = load("hyperstatic.common.tolerance").Tolerance.abs_tol()
        flat = conj(*[sabs(x) < tol for x in n])
        if bad:
            E.prove("rejects only points that are collinear within the tolerance", flat)
            return
        E.prove("collinear points are rejected", neg(conj(*[sabs(x) == 0 for x in n])))
        E.prove("points collinear within the tolerance are rejected", neg(conj(*[sabs(x) < tol / 2 for x in n])))
        T = k.transform_matrix
        E.eq("T T^t = I", npo.dot(T, T.T), np.eye(3))
        E.eq("det T = +1", np.linalg.det(T), 1)
        E.eq("origin = O", k.origin, O)
        E.eq("x axis parallel to OA", cross(T[0], a), [0, 0, 0])
        E.prove("x axis points from O to A", dot(T[0], a) > 0)
        E.eq("B lies in the local xy plane", dot(T[2], b), 0)
        E.prove("B has a positive local y", dot(T[1], b) > 0)
        E.eq("x", k.x, T[0])
        E.eq("y", k.y, T[1])
        E.eq("z", k.z, T[2])
        E.same("name", k.name == "csys1")

    E.run("Cartesian(O,A,B)", c, case_of={"O": O, "A": A, "B": B}, functions=FUNCTIONS,
          hints=[dict(ax=1, ay=2, az=3, bx=2, by=4, bz=6), dict(ax=1, ay=0, az=0, bx=0, by=1, bz=0)])
