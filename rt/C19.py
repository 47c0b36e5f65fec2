"""random frames (releases, rotated members) with several patterns and, for time histories, every step: assembled loads against an independent dense reference; total force in equilibrium with the loads"""
from rt.frame import *

_P = [{"name": "p0", "factor": 2, "nodal": {"A": [1, 2, 3, 4, 5, 6], "C": [0, 0, 0, 0, 0, 0]}, "dist": {"x": [1, 2, 3, 4, 5, 6, 7, 8]}, "conc": {"y": [1, 2, 3, 4, 5, 6, .25]}, "curve": [1, .5, 0, -2]},
      {"name": "p1", "factor": -1, "nodal": {"A": [1, 2, 3, 4, 5, 6]}, "dist": {"x": [0, 2, 0, 0, 0, 2, 0, 0], "y": [1] * 8}, "conc": {}, "curve": [0, 1, 2, 3]}]
CORNERS = [dict(BASE, pats=_P), dict(BASE, pats=_P, rots={"A": [.3, .7, -.5], "C": [0, 1, 0]}), dict(BASE, pats=_P, curves=True), dict(BASE, pats=[]), dict(BASE, pats=_P[1:], beams=[dict(b, rel=[5, 11]) for b in BASE["beams"]])]

CORNERS += [dict(BASE, pats=_P, large=True), TOWER]


def gen(rng, i):
    c = gen_frame(rng)
    cv = rng.random() < .4
    c["pats"] = gen_loads(rng, c, curves=cv)
    if rng.random() < .2:
        w = rng.choice([1e-9, 1e-6, 1e6])
        for p in c["pats"]:
            p["factor"] *= w
    if rng.random() < .3:
        c["rots"] = {n: [round(rng.uniform(-2, 2), 2) for _ in range(3)] for n, _ in c["nodes"] if rng.random() < .5}
    if cv:
        n = min(len(p["curve"]) for p in c["pats"])
        for p in c["pats"]:
            p["curve"] = p["curve"][:n]
        c["curves"] = True
    return c


def check(c):
    if c.get("large"):
        q, o = large(c)
        f, rest = tail(Assembly(build(q), [case(q)]).assemble_f("case"), o)
        return expect("f-large", f.reshape(-1), ref_f(c), rtol=1e-9) or expect("f-large-elsewhere", rest, 0)
    if bad(c):
        return None
    m = build(c)
    rots = c.get("rots") or {}
    if rots and not rotate_nodes(m, rots):
        rots = {}
    cv = c.get("curves")
    lc = case(c, TimeHistoryCase if cv else StaticCase)
    a = Assembly(m, [StaticCase("zzz"), lc])
    n = 6 * len(c["nodes"])
    steps = range(len(c["pats"][0]["curve"])) if cv and c["pats"] else [None]
    def ref(s):
        """loads given in the axes of the node: only the nodal part turns"""
        if not rots:
            return ref_f(c, s)
        W = ref_f(c, s)
        N = ref_f(dict(c, pats=[dict(p, dist={}, conc={}) for p in c["pats"]]), s)
        for n, h in hids(c).items():
            if n in rots:
                T = np.asarray(dense(m.get_node_transform_matrix(n)), float)
                x = N[6 * h:6 * h + 6]
                W[6 * h:6 * h + 6] += T.T @ x - x
        return W
    for s in steps:
        f = a.assemble_f("case") if s is None else a.assemble_f("case", s)
        W = ref(s)
        sc = float(np.max(np.abs(W))) if len(W) and np.any(W) else 1
        r = expect("f", np.asarray(dense(f), float).reshape(-1) / sc, W / sc, rtol=1e-8, atol=1e-9)
        if r:
            return r[0], f"step {s}: {r[1]}"
        if tuple(f.shape) != (n, 1):
            return "shape", str(f.shape)
    return first(expect("default-step", np.asarray(dense(a.assemble_f("case")), float).reshape(-1), ref(0 if cv and c["pats"] else None), rtol=1e-8, atol=1e-8),
                 expect("other-case", np.asarray(dense(a.assemble_f("zzz")), float).reshape(-1), np.zeros(n)))
