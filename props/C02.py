"""Rotations of a coordinate system: right-handed rotation by theta about a global axis, a local axis or a vector."""
from vc.api import *

FUNCTIONS = ["common.csys.Cartesian." + n for n in ("rotate_about_external_x", "rotate_about_external_y", "rotate_about_external_z",
             "rotate_about_x", "rotate_about_y", "rotate_about_z", "rotate_about_vec", "align_with_global")]
ASSUME = ["scipy Rotation.from_quat/apply: rotation matrix of the normalised quaternion applied to each row"]


def rodrigues(k, th, v):
    c, s = scos(th), ssin(th)
    kv = dot(k, v)
    x = cross(k, v)
    # expressed in half angles, the form used by the quaternion
    h = th / 2
    C, Sn = scos(h) ** 2 - ssin(h) ** 2, 2 * ssin(h) * scos(h)
    return [v[i] * C + x[i] * Sn + k[i] * kv * (1 - C) for i in range(3)]


def contracts(E):
    m = load("hyperstatic.common.csys")
    th = var("theta")
    O = V("ox", "oy", "oz")
    a = V("ax", "ay", "az")
    b = V("bx", "by", "bz")
    A = [x + y for x, y in zip(O, a)]
    B = [x + y for x, y in zip(O, b)]
    v = V("vx", "vy", "vz")

    def make():
        bad, k = raises(m.Cartesian, O, A, B)
        if bad:
            raise engine.Infeasible()
        return k

    def one(op, axis, args=()):
        def c(E):
            k = make()
            T0 = k.transform_matrix
            if axis == "v":
                E.assume(neg(conj(*[x == 0 for x in v])))
                n = norm(v)
                ax = [x / n for x in v]
            elif isinstance(axis, int):
                ax = [T0[axis, j] for j in range(3)]
            else:
                ax = axis
            want = npo.array([rodrigues(ax, th, [T0[i, j] for j in range(3)]) for i in range(3)], dtype=object)
            getattr(k, op)(*args)
            T1 = k.transform_matrix
            for i in range(3):
                E.eq(f"axis {i} rotated by theta", T1[i], want[i])
            E.eq("origin unchanged", k.origin, O)
            E.eq("x", k.x, T1[0])
        E.run(op, c, case_of={"k": op, "O": O, "A": A, "B": B, "th": th, "v": v},
              functions=["common.csys.Cartesian." + op])

    for i, n in enumerate("xyz"):
        one("rotate_about_external_" + n, [S.const(int(j == i)) for j in range(3)], (th,))
        one("rotate_about_" + n, i, (th,))
    one("rotate_about_vec", "v", tuple(v) + (th,))

    def al(E):
        k = make()
        k.align_with_global()
        E.eq("axes", k.transform_matrix, np.eye(3))
        E.eq("origin unchanged", k.origin, O)
    E.run("align_with_global", al, case_of={"k": "align_with_global", "O": O, "A": A, "B": B, "th": th, "v": v}, functions=["common.csys.Cartesian.align_with_global"])

    # lemma: Rodrigues' formula about a unit axis preserves orthonormality and orientation
    def lem(E):
        k = make()
        T = k.transform_matrix
        ax = [T[0, j] for j in range(3)]
        W = npo.array([rodrigues(ax, th, [T[i, j] for j in range(3)]) for i in range(3)], dtype=object)
        E.eq("rotated frame orthonormal", npo.dot(W, W.T), np.eye(3))
    E.run("lemma: rotation keeps the frame orthonormal", lem, spaths=0)
