"""random frames with masses, loads and curves of different lengths: every stored step against the central difference equation of motion of an independent dense model, start from rest, number of steps, results read back at the nodes"""
from rt.frame import *
from rt.C21 import fixed, FIX
from hyperstatic.core.fe_solver.dynamic import TimeHistorySolver
from hyperstatic.core.fe_post.node import NodeResultResolver
import contextlib, io, tempfile, shutil

M6 = [3, 4, 5, .6, .7, .8]
_P = [{"name": "p0", "factor": 2, "nodal": {"A": [1, 2, 3, 4, 5, 6], "C": [0, -1, 0, 0, 0, 0]}, "dist": {"x": [1, 2, 3, 4, 5, 6, 7, 8]}, "conc": {"y": [1, 2, 3, 4, 5, 6, .25]}, "curve": [1, -2, 3, 5, 1]},
      {"name": "p1", "factor": -1, "nodal": {"B": [1, 2, 3, 4, 5, 6]}, "dist": {}, "conc": {}, "curve": [0, 2, 1, 4]}]
MASS = {"A": M6, "B": M6[::-1], "C": [1, 2, 3, .1, .2, .3]}
CORNERS = [dict(BASE, pats=_P, mass=MASS, restraints={"A": FIX}, dt=.1, xi=.05), dict(BASE, pats=_P[:1], mass=MASS, restraints={"A": FIX, "B": FIX}, dt=.05, xi=.02),
           dict(BASE, pats=_P, mass=MASS, restraints={"B": FIX}, case_restraints={"C": [1, 1, 1, 0, 0, 0], "A": [0, 1, 1, 1, 0, 0]}, dt=.2, xi=.3), dict(BASE, pats=_P, mass=MASS, restraints={}, dt=.1, xi=.1), dict(BASE, pats=_P, mass=MASS, restraints={"A": FIX}, dt=.1, xi=1.2), dict(BASE, pats=_P, mass=MASS, restraints={"A": FIX}, dt=.1, xi=0),
           dict(BASE, pats=[dict(_P[0], factor=1e-9)], mass=MASS, restraints={"A": FIX}, dt=.1, xi=.05, case="LC.1 x")]


def gen(rng, i):
    c = gen_frame(rng, nmax=4, releases=False)
    names = [n for n, _ in c["nodes"]]
    c["mass"] = {n: [rpos(rng) for _ in range(6)] for n in names}
    c["pats"] = gen_loads(rng, c, curves=True)
    for p in c["pats"]:
        p["curve"] = rvec(rng, rng.randint(2, 7))
    def res():
        r = {rng.choice(names): FIX}
        for n in rng.sample(names, len(names)):
            if rng.random() < .3 and n not in r:
                r[n] = [int(rng.random() < .5) for _ in range(6)]
        return r
    c["restraints"] = res()
    if rng.random() < .35:
        c["case_restraints"] = res()
    c["case"] = rng.choice(NAMES)
    c["dt"], c["xi"] = round(rng.uniform(.02, .5), 3), round(rng.uniform(.01, rng.choice([.4, .4, 2.5])), 3)
    return c


def check(c):
    if bad(c) or not c["pats"] or c["dt"] <= 0 or c["xi"] < 0:
        return None
    path = tempfile.mkdtemp(prefix="c31_")
    try:
        r = flow(c, path)
        # the same folder again, for a changed structure
        return r[0] if r and r[0] else (flow(stiffer(c), path, "changed-model-") or (None,))[0] if r else None
    finally:
        shutil.rmtree(path, ignore_errors=True)


def flow(c, path, tag=""):
    h = hids(c)
    nm = cname(c)
    n = 6 * len(c["nodes"])
    fx = fixed(c.get("case_restraints") or {}, h) or fixed(c["restraints"], h)
    free = [i for i in range(n) if i not in fx]
    if not free:
        return None
    I = np.ix_(free, free)
    K, M = ref_K(c)[I], ref_M(c)[I]
    wi, wj, dt = math.pi, 2 * math.pi, c["dt"]
    C = 2 * c["xi"] / (wi + wj) * (wi * wj * M + K)
    A = M / dt ** 2 + C / (2 * dt)
    if np.linalg.cond(A) > 1e5:
        return None
    steps = min(len(p["curve"]) for p in c["pats"])
    m = build(c)
    lc = case(c, TimeHistoryCase)
    lc.use_direct_time_integration(dt, c["xi"])
    Assembly(m, [StaticCase(near(nm)), lc]).save(path, "m.asb")
    with contextlib.redirect_stdout(io.StringIO()):
        TimeHistorySolver(path, "m.asb").solve(nm)
    d = np.load(os.path.join(path, nm + ".d.npy"))
    if d.shape != (steps + 1, len(free)):
        return (tag + "shape", f"{d.shape} instead of {(steps + 1, len(free))}"),
    r = expect(tag + "start-from-rest", d[0], np.zeros(len(free)), rtol=0, atol=0)
    if r:
        return r,
    for t in range(steps):
        u, w = d[t], d[t - 1] if t else np.zeros(len(free))
        f = ref_f(c, t)[free]
        b = f - (K - 2 / dt ** 2 * M) @ u - (M / dt ** 2 - C / (2 * dt)) @ w
        q = np.linalg.norm(A @ d[t + 1] - b)
        if not q <= 2e-4 * (np.linalg.norm(b) + 1e-30):
            return (tag + "equation-of-motion", f"step {t}: residual {q} of {np.linalg.norm(b)}"),
    N = NodeResultResolver(path, "m.asb")
    for i in range(steps + 1):
        full = np.zeros(n)
        full[free] = d[i]
        for a, j in h.items():
            r = expect(tag + "displacement-at-node", N.resolve_nodal_displacement(a, nm, i + 1), full[6 * j:6 * j + 6], rtol=0, atol=0)
            if r:
                return r,
    return None,
