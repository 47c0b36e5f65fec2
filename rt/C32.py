"""random plane triangles and convex quadrilaterals in any position, through the model, with the kernels compiled from the current C sources: area, local frame, choice of plate / membrane action, rigid motions, constant strain and curvature states, cyclic renumbering"""
from rt.C33 import *
kern.install()
from hyperstatic.core.fe_model.model import Model
from hyperstatic.core.fe_model.element.tria.DKT import DKT
from hyperstatic.core.fe_model.element.quad.DKGQ import DKGQ

CORNERS = [{"n": len(X), "X": X, "R": R, "E": 3.0, "mu": .25, "t": .3, "et": et, "rev": rev} for X in ([[0, 0], [2, 0], [0, 1]], [[0, 0], [3, 0], [3, 1], [0, 1]], [[0, 0], [4, .5], [3, 3], [-1, 2]])
           for R in (None, [[1, 0, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, 1]], [[.6, .8, 0], [0, 0, 1]], [[1, 0, 0], [0, .6, .8]]) for et in (None, "plate", "membrane") for rev in (False, True) if et or True]


def gen(rng, i):
    n = rng.choice([3, 4])
    a, b = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(3)]))[0][:2]
    R = rng.choice([None, [[1, 0, 0], [0, 0, 1]], [list(map(float, a)), list(map(float, b))], [list(map(float, a)), list(map(float, b))]])
    if rng.random() < .3:               # nearly horizontal, or vertical
        s, q = 10.0 ** -rng.randint(1, 4), rng.uniform(-4, 4)
        R = [[math.cos(q), math.sin(q), 0], [-math.sin(q) * math.cos(s), math.cos(q) * math.cos(s), math.sin(s)]]
    return {"n": n, "X": polygon(rng, n), "R": R, "E": rpos(rng), "mu": round(rng.uniform(-.4, .49), 3), "t": rpos(rng, .1, 2) * rng.choice([1, 1, 1, 1e-2, 1e-5]), "et": rng.choice([None, "shell", "plate", "membrane"]), "rev": rng.random() < .4}


def build(c, P, et, names=None):
    m = Model()
    names = names or "ABCD"[:c["n"]]
    for a, p in zip("ABCD", P):
        m.add_node(a, *map(float, p))
    m.add_isotropic_material("m", 7.0, c["E"], c["mu"], 1e-5)
    m.add_isotropic_material("o", 1.0, 9.0, .1, 1e-5)
    m.add_shell_section("os", "o", 77.0, "membrane")
    m.add_shell_section(*(("s", "m", c["t"]) + ((et,) if et else ())))
    m.add_shell("e", "s", *names)
    return m


def check(c):
    X = c["X"][::-1] if c["rev"] else c["X"]
    R = np.array(c["R"] or [[1, 0, 0], [0, 1, 0]], float)
    P = np.array(X, float) @ R + np.array([0, 0, 2.5])
    n = c["n"]
    z = np.cross(P[1] - P[0], P[2] - P[1])
    z /= np.linalg.norm(z)
    if 1e-12 < 1 - abs(z[2]) < 1e-9:
        return None                     # nearly horizontal
    g = np.array([0, 0, 1.0]) if 1 - abs(z[2]) > 1e-9 else np.array([0, 1.0, 0])
    x = np.cross(g, z)
    x /= np.linalg.norm(x)
    T = np.array([x, np.cross(z, x), z])
    m = build(c, P, c["et"])
    e = reachable(m, (DKT, DKGQ))
    e = e[0] if len(e) == 1 else None
    area = .5 * abs(sum(X[i][0] * X[(i + 1) % n][1] - X[(i + 1) % n][0] * X[i][1] for i in range(n)))
    G = dense(m.get_shell_transform_matrix("e"))
    r = first(e and expect("area", e.area, area, rtol=1e-7), expect("transform", G, np.kron(np.eye(2 * n), T), rtol=1e-6))
    if r:
        return r
    K = np.asarray(dense(m.get_shell_K("e")))
    if K.shape != (6 * n, 6 * n):
        return "size", str(K.shape)
    if not np.all(np.isfinite(K)):
        return "finite", "stiffness not finite"
    L = (P - P.mean(0)) @ T.T
    et = c["et"] or "shell"
    s = np.max(np.abs(K)) or 1
    mem, pla, dr = ([6 * i + k for i in range(n) for k in q] for q in ((0, 1), (2, 3, 4), (5,)))
    inpl = mem + dr
    if np.any(K[np.ix_(inpl, pla)]) or np.any(K[np.ix_(pla, inpl)]):
        return "uncoupled", "membrane and plate action are coupled"
    if (et == "plate") == bool(np.any(K[np.ix_(mem, mem)])) or (et == "membrane") == bool(np.any(K[np.ix_(pla, pla)])):
        return "action", "element type " + et
    r = expect("symmetric", K, K.T, rtol=1e-9)
    if r:
        return r
    names = "BCDA" if n == 4 else "BCA"
    K2 = np.asarray(dense(build(c, P, c["et"], names).get_shell_K("e")))
    d = [6 * "ABCD".index(a) + k for a in names for k in range(6)]
    K1 = K[np.ix_(d, d)]
    if et != "membrane":
        r = expect("plate-renumbering", K2[np.ix_(pla, pla)], K1[np.ix_(pla, pla)], rtol=1e-6)
        if r:
            return r
    if et != "membrane":
        B = K[np.ix_(pla, pla)]
        Rg, C = modes(True, L[:, :2])
        if np.max(np.abs(B @ Rg)) > 1e-7 * s * max(1, np.max(np.abs(Rg))):
            return "plate-rigid", "forces in a rigid motion"
        r = expect("plate-patch", C.T @ B @ C, law(True, c["E"], c["mu"], c["t"]) * area, rtol=1e-6)
        if r:
            return r
    if et != "plate":
        ix = [6 * i + k for i in range(n) for k in (0, 1, 5)]
        B = K[np.ix_(ix, ix)]
        Rg, C = modes(False, L[:, :2])
        key = "triangle-membrane" if n == 3 else "membrane"
        if np.max(np.abs(B @ Rg)) > 1e-7 * s * max(1, np.max(np.abs(Rg))):
            return key if n == 3 else key + "-rigid", "forces in a rigid motion"
        r = expect(key if n == 3 else key + "-patch", C.T @ B @ C, law(False, c["E"], c["mu"], c["t"]) * area, rtol=1e-6)
        if r:
            return r
        if n == 4:
            return expect("quad-membrane-renumbering", K2[np.ix_(ix, ix)], K1[np.ix_(ix, ix)], rtol=1e-6)
    return None
