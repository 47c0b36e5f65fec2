"""random stable frames solved with the real solver: displacements, deformation, end forces, reactions against an independent dense reference; end forces vanish at released ends; reactions balance the loads"""
from rt.C21 import *
from hyperstatic.core.fe_post.node import NodeResultResolver
from hyperstatic.core.fe_post.beam import BeamResultResolver
from hyperstatic.core.fe_post.structure import StructureResultResolver
import spec as SP


def herm(L, x, der=0):
    f = (lambda p: p) if not der else SP.pder
    h = [float(SP.peval(f(SP.HERMITE[i]), x)) * L ** SP.HPOW[i] / (L if der else 1) for i in range(4)]
    a = [float(SP.peval(f(SP.LIN[i]), x)) / (L if der else 1) for i in range(2)]
    return a, h


def history(c):
    """a stored history of five steps (free degrees of freedom, or all): every step is read with its own loads"""
    h = hids(c)
    n = 6 * len(c["nodes"])
    fx = fixed(c.get("case_restraints") or {}, h) or fixed(c["restraints"], h)
    free = [i for i in range(n) if i not in fx]
    c = dict(c, pats=[dict(p, curve=[1.5 - k, 2., -.25 * k, 3., .5 + k]) for k, p in enumerate(c["pats"])])
    m = build(c)
    path = tempfile.mkdtemp(prefix="c22_")
    try:
        Assembly(m, [case(c, TimeHistoryCase)]).save(path, "m.asb")
        amp = [1., 1e6, 1e-5, 1e3, 1.]
        D = np.array([[amp[k] * math.sin(1 + i + 3 * k) if i in free else 0. for i in range(n)] for k in range(5)])
        K = ref_K(c)
        N, B = NodeResultResolver(path, "m.asb"), BeamResultResolver(path, "m.asb")
        for rows in ([D[:, free], D] if len(fx) else [D]):
            np.save(os.path.join(path, cname(c) + ".d.npy"), rows)
            for k in range(5):
                f = ref_f(c, k)
                rea = K @ D[k] - f
                fs = amp[k] * np.max(np.abs(K)) + np.max(np.abs(f)) * 1e-2
                for nm, i in h.items():
                    r = first(expect("history-displacement", N.resolve_nodal_displacement(nm, cname(c), k + 1), D[k][6 * i:6 * i + 6], rtol=0, atol=0),
                              expect("history-reaction", N.resolve_nodal_reaction(nm, cname(c), k + 1) / fs, rea[6 * i:6 * i + 6] / fs, rtol=1e-7, atol=1e-8))
                    if r:
                        return r
                for b in c["beams"]:
                    Kc, w = schur(stiff(bcase(c, b)), b.get("rel") or [], eq_load(c, b, k))
                    u = frame_of(c, b) @ D[k][dofs(c, b)]
                    W = Kc @ u - w
                    sc = max(1e-30, np.max(np.abs(W)), amp[k] * np.max(np.abs(Kc)) * 1e-3, np.max(np.abs(w)) * 1e-3)
                    r = expect("history-end-force", np.asarray(B.resolve_beam_end_force(b["name"], cname(c), k + 1), float) / sc, W / sc, rtol=1e-7, atol=1e-7)
                    if r:
                        return r
    finally:
        shutil.rmtree(path, ignore_errors=True)


def check(c):
    return static(c) or (history(c) if c.get("pats") and len(c["nodes"]) < 9 and not bad(c) else None)


def static(c):
    if bad(c):
        return None
    h = hids(c)
    n = 6 * len(c["nodes"])
    fx = fixed(c.get("case_restraints") or {}, h) or fixed(c["restraints"], h)
    free = [i for i in range(n) if i not in fx]
    K, f = ref_K(c), ref_f(c)
    if not free or np.linalg.cond(K[np.ix_(free, free)]) > 1e8:
        return None
    path = tempfile.mkdtemp(prefix="c22_")
    try:
        m, s = solve(c, path)
        s.solve_linear(cname(c))
        d = np.load(os.path.join(path, cname(c) + ".d.npy"))
        two = np.vstack([d, 2 * d + np.arange(n) / 7.])      # a second stored step
        D = d[0].astype(float)
        fs = max(1e-30, np.max(np.abs(f)), np.max(np.abs(K)) * np.max(np.abs(D)) * 1e-3)
        N, B, ST = NodeResultResolver(path, "m.asb"), BeamResultResolver(path, "m.asb"), StructureResultResolver(path, "m.asb")
        rea = K @ D - f
        for nm, i in h.items():
            r = first(expect("displacement", N.resolve_nodal_displacement(nm, cname(c)), D[6 * i:6 * i + 6], rtol=0, atol=0),
                      expect("reaction", N.resolve_nodal_reaction(nm, cname(c)) / fs, rea[6 * i:6 * i + 6] / fs, rtol=1e-7, atol=1e-7))
            if r:
                return r
        r = expect("total-reaction", ST.resolve_structural_reaction(cname(c)) / fs, sum(rea[i] for i in fx) / fs, rtol=1e-7, atol=1e-6)
        if r:
            return r
        np.save(os.path.join(path, cname(c) + ".d.npy"), two)
        for b in c["beams"]:
            L, T = length(bcase(c, b)), frame_of(c, b)
            Kc, w = schur(stiff(bcase(c, b)), b.get("rel") or [], eq_load(c, b))
            u = T @ D[dofs(c, b)]
            e = B.resolve_beam_end_force(b["name"], cname(c))
            W = Kc @ u - w
            sc = max(1e-30, np.max(np.abs(W)), np.max(np.abs(Kc)) * np.max(np.abs(u)) * 1e-3)
            r = expect("end-force", np.asarray(e, float) / sc, W / sc, rtol=1e-7, atol=1e-7)
            if r:
                return r
            if b.get("rel") and np.max(np.abs(np.asarray(e, float)[b["rel"]])) > 1e-6 * sc:
                return "released-end-force", "force at a released end: %s" % short(e)
            for k, x in enumerate((0.0, 0.3, 0.75, 1.0)):
                uu = T @ two[k % 2].astype(float)[dofs(c, b)]
                a, H = herm(L, x)
                _, H1 = herm(L, x, 1)
                a1, a2 = np.array(a), np.array(a)
                s3 = [-H[0], H[1], -H[2], H[3]]
                s31 = [-H1[0], H1[1], -H1[2], H1[3]]
                W = [a1 @ uu[[0, 6]], np.dot(H, uu[[1, 5, 7, 11]]), np.dot(s3, uu[[2, 4, 8, 10]]), a2 @ uu[[3, 9]], np.dot(H1, uu[[1, 5, 7, 11]]), np.dot(s31, uu[[2, 4, 8, 10]])]
                q = max(1e-30, np.max(np.abs(uu)))
                r = expect("deformation", np.asarray(B.resolve_beam_deformation(b["name"], x, cname(c), k % 2 + 1), float) / q, np.array(W) / q, rtol=1e-7)
                if r:
                    return r
        for nm, i in h.items():
            r = expect("displacement-step", N.resolve_nodal_displacement(nm, cname(c), 2), two[1][6 * i:6 * i + 6], rtol=0, atol=0)
            if r:
                return r
        return None
    finally:
        shutil.rmtree(path, ignore_errors=True)
