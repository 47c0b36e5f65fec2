"""random space frames with nodal masses: assembled mass against an independent dense assembly; symmetry, non-negative energy, total mass"""
from rt.frame import *

CORNERS = [BASE, dict(BASE, mass={"A": [1, 2, 3, 4, 5, 6], "C": [1, 1, 1, 0, 0, 0]}), dict(BASE, beams=[], mass={"B": [1, 2, 3, 0, 0, 0]}),
           {"nodes": [["A", [0, 0, 0]], ["B", [3, 1, 2]]], "beams": [{"name": "x", "ends": ["B", "A"], "kind": "SimpleBeam", "s": SEC, "rel": [0], "rot": None}]}]

CORNERS += [dict(CORNERS[1], large=True), dict(TOWER, mass={"n23": [1, 2, 3, 4, 5, 6], "n4": [1, 1, 1, 0, 0, 0]})]


def gen(rng, i):
    c = gen_frame(rng, releases=rng.random() < .5)
    c["mass"] = {n: [rpos(rng) if rng.random() < .7 else 0 for _ in range(6)] for n, _ in c["nodes"] if rng.random() < .5}
    return c


def check(c):
    if c.get("large"):
        q, o = large(c)
        M, rest = tail(Assembly(build(q), []).assemble_M(), o)
        return expect("M-large", M, ref_M(c), rtol=1e-9) or expect("M-large-elsewhere", rest, 0)
    if bad(c):
        return None
    m = build(c)
    n, h = len(c["nodes"]), hids(c)
    W = np.zeros((6 * n, 6 * n))
    tot = np.zeros(3)
    for k, v in (c.get("mass") or {}).items():
        for i in range(6):
            W[6 * h[k] + i, 6 * h[k] + i] += v[i]
        tot += np.array(v[:3], float)
    for b in c["beams"]:
        s, T = b["s"], frame_of(c, b)
        L = length(bcase(c, b))
        d = dofs(c, b)
        D = np.diag([s["rho"] * s["A"] * L / 2.] * 3 + [1e-12] * 3)
        D = np.kron(np.eye(2), D)
        if b.get("rel"):
            D = np.asarray(dense(m.get_beam_M(b["name"], condensate=True)), float)
        W[np.ix_(d, d)] += T.T @ D @ T
        tot += s["rho"] * s["A"] * L
    a = Assembly(m, [case(c, ModalCase, 2)])
    M = np.asarray(dense(a.assemble_M()))
    r = expect("M", M, W, rtol=1e-9)
    if r:
        return r
    sc = np.max(np.abs(M)) or 1
    if np.max(np.abs(M - M.T)) > 1e-9 * sc:
        return "symmetric", "mass matrix not symmetric"
    if all(x >= 0 for v in (c.get("mass") or {}).values() for x in v) and np.linalg.eigvalsh((M + M.T) / 2)[0] < -1e-8 * sc:
        return "energy", "negative kinetic energy"
    for k in range(3 if not any(b.get("rel") for b in c["beams"]) else 0):
        u = np.tile(np.eye(6)[k], n)
        r = expect("total-mass", u @ M @ u, tot[k])
        if r:
            return r
    return first(expect("repeatable", dense(a.assemble_M()), M), expect("case", dense(a.assemble_M("case")), M))
