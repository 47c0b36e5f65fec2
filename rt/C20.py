"""random sparse matrices and vectors reduced under random restraints of model and case, against dense deletion of rows and columns; DOF, restraintDOF, arguments unchanged, repeatable"""
from rt.frame import *
import scipy.sparse as spr

N5 = [["n%d" % i, [float(i), 0, 0]] for i in range(5)]
CORNERS = [{"nodes": N5, "restraints": r, "case_restraints": q, "kind": k, "trip": [[1, 2, 3.5], [29, 29, 2], [0, 0, 1], [7, 24, -1], [7, 24, 2], [24, 7, 5]]}
           for r, q in (({}, {}), ({"n0": [1] * 6}, {}), ({"n4": [1, 0, 1, 0, 1, 1], "n0": [0, 0, 1, 1, 1, 1]}, {}), ({"n1": [1] * 6}, {"n3": [0, 1, 0, 0, 0, 1]}), ({}, {"n4": [0, 0, 0, 0, 0, 1], "n2": [1, 1, 1, 0, 0, 0]}),
                        ({"n%d" % i: [1] * 6 for i in range(4)}, {})) for k in ("StaticCase", "ModalCase")]


def gen(rng, i):
    n = rng.randint(1, 6)
    names = rng.sample(["n%d" % i for i in range(9)], n)
    def res(p):
        ks = [a for a in names if rng.random() < p]
        rng.shuffle(ks)
        return {a: [rng.random() < .45 for _ in range(6)] for a in ks}
    return {"nodes": [[a, [float(k), 0, 0]] for k, a in enumerate(names)], "restraints": res(.5), "case_restraints": res(.4) if rng.random() < .5 else {},
            "kind": rng.choice(["StaticCase", "ModalCase", "TimeHistoryCase"]), "trip": [[rng.randrange(6 * n), rng.randrange(6 * n), rnum(rng)] for _ in range(rng.choice([0, rng.randint(1, 30), rng.randint(1, 30), rng.randint(1, 30)]))]}


def fixed(r, h):
    return sorted(6 * h[a] + j for a, v in r.items() for j in range(6) if v[j])


def check(c):
    m = build(dict(c, beams=[]))
    h = hids(c)
    n = 6 * len(c["nodes"])
    R, Q = fixed(c["restraints"], h), fixed(c["case_restraints"], h)
    if c["case_restraints"] and not Q:
        return None
    if max(len(R), len(Q)) == n:
        return None
    kind = {"StaticCase": StaticCase, "ModalCase": ModalCase, "TimeHistoryCase": TimeHistoryCase}[c["kind"]]
    lc = case(c, kind)
    other = StaticCase("other")
    a = Assembly(m, [lc, other])
    t = c["trip"]
    K = spr.coo_matrix(([float(x[2]) for x in t], ([x[0] for x in t], [x[1] for x in t])), shape=(n, n))
    D = np.asarray(K.todense())
    f = np.array([float(i + 1) * (-1) ** i for i in range(n)]).reshape(n, 1)
    for nm, fx in (("case", Q or R), ("other", R)):
        free = [i for i in range(n) if i not in fx]
        for rep in range(2):
            A = a.assemble_boundary(nm, K)
            r = first(None if tuple(A.shape) == (len(free),) * 2 else ("shape", str(A.shape)), expect("matrix", dense(A), D[np.ix_(free, free)]),
                      expect("argument-changed", dense(K), D))
            if r:
                return r
        for F in (0 * f, f):
            g = a.assemble_boundary(nm, spr.csr_matrix(F))
            r = expect("vector", np.asarray(dense(g)).reshape(-1), F[free, 0]) or (None if tuple(g.shape) == (len(free), 1) else ("vector-shape", str(g.shape)))
            if r:
                return r
        r = expect("vector", np.asarray(dense(g)).reshape(-1), f[free, 0]) or (None if tuple(g.shape) == (len(free), 1) else ("vector-shape", str(g.shape)))
        if r:
            return r
    return first(None if a.DOF == n - len(R) else ("DOF", f"{a.DOF} expected {n - len(R)}"),
                 None if sorted(a.restraintDOF()) == R else ("restraintDOF", str(a.restraintDOF())),
                 None if sorted(a.restraintDOF("case")) == Q else ("restraintDOF-case", str(a.restraintDOF("case"))),
                 None if a.node_count == len(c["nodes"]) else ("node_count", ""))
