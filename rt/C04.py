"""random nodes, masses and rotation sequences"""
from rt.common import *
from hyperstatic.core.fe_model.node import Node
_Q = math.pi / 2
CORNERS = [{"k": "rot", "p": [1, 2, 3], "pre": p, "th": t, "i": i} for p, t, i in ((0, _Q, 2), (0, -_Q, 0), (_Q, _Q, 2), (_Q, math.pi, 0), (math.pi, 0, 1), (0, 1e-5, 0), (0, -1e-6, 2))] + [{"k": "new", "p": [0, 0, 0], "m": [1, 2, 3, 4, 5, 6]}, {"k": "new", "p": [1, -2, 3], "m": [0, 0, 0, 0, 0, 0]}]


def gen(rng, i):
    if i % 2:
        return {"k": "new", "p": rvec(rng), "m": rvec(rng, 6)}
    return {"k": "rot", "p": rvec(rng), "th": rnum(rng), "i": rng.randrange(3), "more": [[rng.randrange(3), rnum(rng)] for _ in range(rng.randint(0, 3))]}


def check(c):
    n = Node("N1", *c["p"])
    r = first(expect("loc", n.loc, c["p"]), expect("xyz", [n.x, n.y, n.z], c["p"]), expect("identity", n.transform_matrix, np.eye(6)),
              expect("mass0", n.mass, np.zeros(6)), None if n.name == "N1" else ("name", repr(n.name)))
    if r:
        return r
    if c["k"] == "new":
        n.mass = np.array(c["m"])
        for m in (c["m"], c["m"][::-1], c["m"]):
            n.mass = np.array(m)
            r = first(expect("mass", n.mass, m), expect("mass-matrix", dense(n.integrate_M()), np.diag(m)), expect("loc", n.loc, c["p"]))
            if r:
                return r
        return None
    n.rotate_about_2axis(c.get("pre", c["th"]))
    for i, th in [[c["i"], c["th"]]] + c.get("more", []):
        T0 = np.array(n.local_csys.transform_matrix, float)
        getattr(n, f"rotate_about_{i + 1}axis")(th)
        W = T0 @ rot(T0[i], th).T
        r = first(expect("rotated", n.local_csys.transform_matrix, W), expect("T6", n.transform_matrix, blockdiag(W, 2)), expect("loc", n.loc, c["p"]))
        if r:
            return r
    n.initialize_csys()
    return expect("reinit", n.transform_matrix, np.eye(6))
