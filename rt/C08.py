"""random members and release patterns (all 24 single-action patterns first; thorough: all 4096): condensed matrix against the pseudo-inverse Schur complement, condensed loads when the released dofs are no mechanism"""
import itertools
from rt.beamrt import *
from rt import C06

BLOCKS = [(0, 6), (3, 9), (1, 5, 7, 11), (2, 4, 8, 10)]
F = [1, -2, 3, -4, 5, -6, 7, 8, -9, 10, 11, -12]
CORNERS = [dict(C06.CORNERS[4 * (j % 2)], rel=list(r), f=F) for b in BLOCKS for k in range(len(b) + 1) for j, r in enumerate(itertools.combinations(b, k))] + \
          [dict(C06.CORNERS[2], rel=list(r), f=F) for r in itertools.combinations(range(12), 2)]
NAMES = ["u1i", "u2i", "u3i", "r1i", "r2i", "r3i", "u1j", "u2j", "u3j", "r1j", "r2j", "r3j"]


def gen(rng, i):
    b = C06.gen(rng, i)
    rel = [k for k in range(12) if rng.random() < rng.choice([.2, .5])]
    if i >= 600:
        rel = [k for k in range(12) if (i - 600) >> k & 1]
    return dict(b, rel=rel, old=rng.choice([[], [rng.randrange(12)], list(range(12))]), f=[rnum(rng) for _ in range(12)])


def check(c):
    if degenerate(c):
        return None
    rel = c["rel"]
    K = stiff(c)
    d = 1 / np.sqrt(np.diag(K))
    S = K * np.outer(d, d)                      # scaled: well conditioned
    f = np.array(c["f"], float)
    if rel:
        P = np.linalg.pinv(S[np.ix_(rel, rel)], rcond=1e-9)
        W = (S - S[:, rel] @ P @ S[rel, :]) / np.outer(d, d)
        mech = np.linalg.matrix_rank(S[np.ix_(rel, rel)], tol=1e-8) < len(rel)
        fw = (f * d - S[:, rel] @ P @ (f * d)[rel]) / d
    else:
        W, fw, mech = K, f, False
    sc = np.sqrt(np.outer(np.diag(K), np.diag(K)))
    b = obj(c)
    if len(b.releases) != 12 or any(b.releases):
        return "initially-released", str(b.releases)
    if c.get("old"):
        b.releases = [i in c["old"] for i in range(12)]
    b.releases = [i in rel for i in range(12)]
    K0 = b.integrate_K()
    C = dense(b.static_condensate(K0)).astype(float)
    m = make(c)
    if c.get("old"):
        m.set_beam_releases("B", **{NAMES[i]: True for i in c["old"]})
    m.set_beam_releases("B", **{NAMES[i]: True for i in rel})
    C2 = dense(m.get_beam_condensated_matrix("B", m.get_beam_K("B"))).astype(float)
    C3 = dense(m.get_beam_K("B", condensate=True)).astype(float)
    fs = np.abs(f).max() + 1
    r = first(expect("schur", C / sc, W / sc, atol=1e-7), expect("input-modified", dense(K0).astype(float), K),
              expect("model-schur", C2 / sc, W / sc, atol=1e-7), expect("model-K-condensate", C3 / sc, W / sc, atol=1e-7))
    if r or mech:
        return r
    fin, fin2 = f.copy(), f.copy()
    g = np.asarray(b.static_condensate_f(fin, K0), float).ravel()
    g2 = np.asarray(m.get_beam_condensated_f("B", fin2), float).ravel()
    r = first(expect("load-modified", fin, f), expect("model-load-modified", fin2, f))
    if r:
        return r
    s = np.sqrt(np.diag(K))
    fsc = np.abs(f * d).max() / d.min() / s.max() + 1e-30
    return first(expect("loads", g * d, fw * d, atol=1e-7 * np.abs(f * d).max()), expect("model-loads", g2 * d, fw * d, atol=1e-7 * np.abs(f * d).max()))
