"""random stable frames with masses: eigenpairs against an independent dense eigenvalue solution, residual, M-orthonormality, number of modes, frequencies, mode shapes read back at the nodes"""
from rt.frame import *
from rt.C21 import fixed, FIX
from hyperstatic.core.fe_solver.dynamic import ModalSolver
from hyperstatic.core.fe_post.node import NodeResultResolver
from hyperstatic.core.fe_post.structure import StructureResultResolver
import scipy.linalg as sla
import tempfile, shutil

M6 = [3, 4, 5, .6, .7, .8]
SKEW = {"nodes": [["A", [0, 0, 0]], ["B", [2, 1, 0]], ["C", [2, 3, 4]]], "beams": [{"name": "x", "ends": ["A", "B"], "kind": "SimpleBeam", "s": SEC, "rel": [], "rot": None}, {"name": "y", "ends": ["B", "C"], "kind": "Beam", "s": SEC, "rel": [], "rot": .4},
        {"name": "z", "ends": ["A", "C"], "kind": "Beam", "s": SEC, "rel": [1], "rot": None}], "mass": {"B": M6, "C": M6[::-1]}, "restraints": {"A": FIX}}
CORNERS = [dict(BASE, mass={"B": M6, "C": [1, 2, 3, .1, .2, .3]}, restraints={"A": FIX}, modes=3), dict(BASE, mass={"A": M6, "C": M6}, restraints={"B": FIX}, modes=40, how="solve"),
           dict(BASE, mass={"A": M6, "B": M6}, restraints={"B": FIX}, case_restraints={"C": FIX, "A": [0, 1, 0, 0, 0, 1]}, modes=4), dict(BASE, mass={"B": M6}, restraints={"A": FIX, "C": FIX}, modes=6),
           dict(BASE, mass={"B": M6}, restraints={"A": FIX, "C": FIX}, modes=5), dict(BASE, restraints={"A": FIX}, modes=2),
           dict(BASE, mass={"B": M6, "C": M6[::-1]}, restraints={"A": FIX}, modes=3, ask=5, case="Case.1 A"), dict(BASE, mass={"B": M6, "C": M6[::-1]}, restraints={"A": FIX}, modes=6, ask=2),
           dict(BASE, beams=[dict(b, s=dict(b["s"], E=b["s"]["E"] * 1e-6)) for b in BASE["beams"]], mass={"B": [30 * x for x in M6], "C": M6[::-1]}, restraints={"A": FIX}, modes=4),
           dict(BASE, beams=[dict(b, s=dict(b["s"], E=b["s"]["E"] * 1e9)) for b in BASE["beams"]], mass={"B": M6, "C": M6[::-1]}, restraints={"A": FIX}, modes=4),
           dict(SKEW, modes=3), dict(SKEW, modes=6)]


def gen(rng, i):
    c = gen_frame(rng, nmax=4, releases=rng.random() < .3)
    names = [n for n, _ in c["nodes"]]
    c["mass"] = {n: [rpos(rng) for _ in range(6)] for n in names if rng.random() < .8}
    def res():
        r = {rng.choice(names): FIX}
        for n in rng.sample(names, len(names)):
            if rng.random() < .3 and n not in r:
                r[n] = [int(rng.random() < .5) for _ in range(6)]
        return {k: r[k] for k in rng.sample(list(r), len(r))}
    c["restraints"] = res()
    if rng.random() < .35:
        c["case_restraints"] = res()
    c["modes"] = rng.choice([1, 2, 3, 4, 30])
    c["case"] = rng.choice(NAMES)
    c["ask"] = rng.choice([None, None, 1, 2, 4, 5, 30])
    c["how"] = rng.choice(["solve", "solve_eigen"])
    return c


def ref_M(c, m):
    """lumped nodal and member masses; the mass of a member with released ends as the element reports it (C18)"""
    h = hids(c)
    n = 6 * len(c["nodes"])
    M = np.zeros((n, n))
    for k, v in (c.get("mass") or {}).items():
        for i in range(6):
            M[6 * h[k] + i, 6 * h[k] + i] += v[i]
    for b in c["beams"]:
        s, T, d = b["s"], frame_of(c, b), dofs(c, b)
        D = np.kron(np.eye(2), np.diag([s["rho"] * s["A"] * length(bcase(c, b)) / 2.] * 3 + [1e-12] * 3))
        if b.get("rel"):
            D = np.asarray(dense(m.get_beam_M(b["name"], condensate=True)), float)
        M[np.ix_(d, d)] += T.T @ D @ T
    return M


def check(c):
    if bad(c):
        return None
    path = tempfile.mkdtemp(prefix="c23_")
    try:
        r = flow(c, path)
        # the same folder again, for a changed structure
        return r[0] if r and r[0] else (flow(stiffer(c), path, "changed-model-") or (None,))[0] if r else None
    finally:
        shutil.rmtree(path, ignore_errors=True)


def flow(c, path, tag=""):
    h = hids(c)
    nm = cname(c)
    n = 6 * len(c["nodes"])
    fx = fixed(c.get("case_restraints") or {}, h) or fixed(c["restraints"], h)
    free = [i for i in range(n) if i not in fx]
    m = build(c)
    K, M = ref_K(c), ref_M(c, m)
    if len(free) < 2 or np.linalg.cond(K[np.ix_(free, free)]) > 1e7:
        return None
    k = min(c.get("ask") or c["modes"], len(free))
    if k == len(free) and np.linalg.cond(M[np.ix_(free, free)]) > 1e6:
        return None
    Kf, Mf = K[np.ix_(free, free)], M[np.ix_(free, free)]
    if np.linalg.eigvalsh(Mf)[0] < -1e-9 * np.max(np.abs(Mf)):
        return None
    mu = sla.eigh(Mf, Kf, eigvals_only=True)[::-1][:k]
    if mu[-1] < 1e-7 * mu[0]:
        return None
    W = 1 / mu
    lc = case(c, ModalCase, c["modes"])
    Assembly(m, [ModalCase(near(nm), 5), lc]).save(path, "m.asb")
    s = ModalSolver(path, "m.asb")
    ok = s.solve_eigen(nm, c["ask"]) if c.get("ask") else getattr(s, c.get("how", "solve_eigen"))(nm)
    if ok is not True:
        return (tag + "returns", str(ok)),
    o, d = np.load(os.path.join(path, nm + ".o.npy")), np.load(os.path.join(path, nm + ".d.npy"))
    if o.shape != (k,):
        return (tag + "number-of-modes", f"{o.shape}, expected {k}"),
    if d.shape != (k, len(free)):
        return (tag + "shape", str(d.shape)),
    r = expect(tag + "eigenvalues", o / W, np.ones(k), rtol=1e-5)
    if r:
        return r,
    for i in range(k):
        x = d[i]
        q = Kf @ x - o[i] * (Mf @ x)
        if np.max(np.abs(q)) > 1e-5 * (np.max(np.abs(Kf)) * np.max(np.abs(x)) + 1e-12):
            return (tag + "residual", f"mode {i}: {np.max(np.abs(q))}"),
    r = expect(tag + "orthonormal", d @ Mf @ d.T, np.eye(k), atol=1e-5)
    if r:
        return r,
    f = StructureResultResolver(path, "m.asb").resolve_modal_frequency(nm)
    r = first(expect(tag + "omega", f["omega"], np.sqrt(o)), expect(tag + "f", f["f"], np.sqrt(o) / 2 / math.pi), expect(tag + "T", f["T"], 2 * math.pi / np.sqrt(o)))
    if r:
        return r,
    N = NodeResultResolver(path, "m.asb")
    for i in range(k):
        full = np.zeros(n)
        full[free] = d[i]
        for a, j in h.items():
            r = expect(tag + "mode-shape-at-node", N.resolve_nodal_displacement(a, nm, i + 1), full[6 * j:6 * j + 6], rtol=0, atol=0)
            if r:
                return r,
    return None,
