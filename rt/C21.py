"""random stable frames with loads and restraints of model or case: equilibrium K d = f on the free dofs by an independent dense reference, restrained dofs exactly zero, global equilibrium of the reactions, linearity, isolation of cases"""
from rt.frame import *
from hyperstatic.core.fe_solver.static import StaticSolver
import tempfile, shutil

FIX = [1, 1, 1, 1, 1, 1]
_P = [{"name": "p0", "factor": 2, "nodal": {"A": [1, 2, 3, 4, 5, 6], "C": [0, -1, 0, 0, 0, 0]}, "dist": {"x": [1, 2, 3, 4, 5, 6, 7, 8]}, "conc": {"y": [1, 2, 3, 4, 5, 6, .25]}, "curve": None}]
CORNERS = [dict(BASE, pats=_P, restraints={"A": FIX}, case="Case.1 A"), dict(BASE, pats=[dict(_P[0], factor=1e-10)], restraints={"A": FIX}), dict(BASE, pats=[dict(_P[0], factor=1e10)], restraints={"A": FIX}),
           dict(BASE, pats=_P, restraints={"A": FIX}), dict(BASE, pats=_P, restraints={"C": FIX}), dict(BASE, pats=_P, restraints={"B": FIX}, case_restraints={"C": [1, 1, 1, 0, 0, 0], "A": [0, 1, 1, 1, 0, 0]}),
           dict(BASE, pats=_P, restraints={"B": FIX, "A": [0, 1, 0, 0, 0, 1]}), dict(BASE, pats=_P, restraints={"A": FIX, "B": FIX, "C": FIX[:5] + [0]})]


# members whose stiffnesses are very unequal
WIRE = dict(E=2e5, mu=.3, A=1e3, I2=3e-12, I3=2e-12, J=4e-12, rho=1)
WIRES = {"nodes": [["A", [0, 0, 0]], ["B", [2, 0, 0]], ["C", [2.5, 0, 0]]], "wire": True, "beams": [{"name": "x", "ends": ["A", "B"], "kind": "Beam", "s": WIRE, "rel": [], "rot": None}, {"name": "y", "ends": ["B", "C"], "kind": "Beam", "s": WIRE, "rel": [], "rot": None}],
         "pats": [{"name": "p0", "factor": 1, "nodal": {"B": [0, 2e-6, 0, 0, 0, 0], "C": [0, 0, 1e-6, 0, 0, 0]}, "dist": {}, "conc": {}, "curve": None}]}
CORNERS += [dict(TOWER, restraints={"n0": FIX, "n1": FIX, "n17": [1, 0, 1, 0, 0, 0], "n23": [1, 1, 1, 0, 0, 0], "n18": FIX}), dict(WIRES, restraints={"A": FIX}), dict(WIRES, restraints={"A": FIX, "C": [0, 1, 0, 0, 0, 0]})]


def gen(rng, i):
    c = gen_frame(rng)
    c["pats"] = gen_loads(rng, c)
    names = [n for n, _ in c["nodes"]]
    def res():
        r = {rng.choice(names): FIX}
        for n in rng.sample(names, len(names)):
            if rng.random() < .3 and n not in r and len(r) < len(names):
                r[n] = [int(rng.random() < .5) for _ in range(6)]
        return {k: r[k] for k in rng.sample(list(r), len(r))}
    c["restraints"] = res()
    if rng.random() < .35:
        c["case_restraints"] = res()
    c["case"] = rng.choice(NAMES)
    return c


def fixed(r, h):
    return sorted(6 * h[a] + j for a, v in r.items() for j in range(6) if v[j])


def solve(c, path):
    m = build(c)
    lc, z = case(c), StaticCase(near(cname(c)))
    a = Assembly(m, [lc, z])
    a.save(path, "m.asb")
    s = StaticSolver(path, "m.asb")
    return m, s


def stored(c, path):
    return np.load(os.path.join(path, cname(c) + ".d.npy"))


def check(c):
    if bad(c):
        return None
    path = tempfile.mkdtemp(prefix="c21_")
    try:
        r = flow(c, path)
        # the same folder again, for a changed structure
        return r[0] if r and r[0] else flow(stiffer(c), path, "changed-model-")[0] if r else None
    finally:
        shutil.rmtree(path, ignore_errors=True)


def flow(c, path, tag=""):
    """None: not a stable structure; (None,): as it should be; ((key, message),)"""
    h = hids(c)
    n = 6 * len(c["nodes"])
    fx = fixed(c.get("case_restraints") or {}, h) or fixed(c["restraints"], h)
    free = [i for i in range(n) if i not in fx]
    K, f = ref_K(c), ref_f(c)
    if not free or np.linalg.cond(K[np.ix_(free, free)]) > 1e9 and not c.get("wire"):
        return None
    m, s = solve(c, path)
    ok = s.solve_linear(cname(c))
    d = stored(c, path)
    if ok is not True:
        return (tag + "returns", str(ok)),
    if d.shape != (1, n):
        return (tag + "shape", str(d.shape)),
    d = d[0].astype(float)
    W = np.zeros(n)
    W[free] = np.linalg.solve(K[np.ix_(free, free)], f[free])
    sc = max(1e-30, np.max(np.abs(W)))
    r = first(expect(tag + "restrained-zero", d[fx], np.zeros(len(fx)), rtol=0, atol=0), expect(tag + "displacements", d / sc, W / sc, rtol=1e-6, atol=1e-7))
    if r:
        return r,
    fs = max(1e-30, np.max(np.abs(f)), 1e-9 * np.max(np.abs(K)) * sc)
    r = expect(tag + "equilibrium", (K @ d - f)[free] / fs, np.zeros(len(free)), atol=1e-6)
    if r:
        return r,
    if np.linalg.cond(K[np.ix_(free, free)]) < 1e5:      # a direct solution leaves only rounding errors
        fs = np.max(np.abs(f)) + np.max(np.abs(K) @ np.abs(d))
        if fs > 0:
            r = expect(tag + "equilibrium", (K @ d - f)[free] / fs, np.zeros(len(free)), atol=1e-10)
            if r:
                return r,
    before = d.copy()
    try:
        s.solve_linear(near(cname(c)))
    except Exception as e:
        if not c.get("case_restraints"):
            raise
    d2 = stored(c, path)[0].astype(float)
    return expect(tag + "other-case-changed", d2, before, rtol=0, atol=0),
