"""random members of both types (mixed int/float, all-integer, vertical, axis parallel): stiffness against exact Hermite integration, element object and model API"""
from rt.beamrt import *

CORNERS = [{"kind": k, "p": [0, 0, 0], "q": q, "s": dict(E=200, mu=0.25, A=2, I2=3, I3=5, J=7, rho=1)} for k in ("Beam", "SimpleBeam") for q in ([6, 0, 0], [0, 0, 3], [1, 2, 2], [0, -4, 0], [0.03, 0.01, 0.02], [300, 400, 0])] + [{"kind": k, "p": [0, 0, 0], "q": [6, 0, 0], "s": dict(E=200, mu=mu, A=2, I2=3, I3=5, J=7, rho=1)} for k in ("Beam", "SimpleBeam") for mu in (.49995, 0, -.3)]


def gen(rng, i):
    p, q = gen_ends(rng)
    s = gen_sec(rng)
    if rng.random() < .3:               # sizes of any unit system
        s = dict(s, **{k: s[k] * 10.0 ** -rng.randint(0, 14) for k in ("A", "I2", "I3", "J")})
    return {"kind": rng.choice(["Beam", "SimpleBeam"]), "p": p, "q": q, "s": s}


def entries(K, W):
    """every entry of the local stiffness comes from one of EA, EI2, EI3 and GJ alone: accurate by itself, however small"""
    q = np.abs(K - W) > 1e-8 * np.abs(W) + 1e-15 * np.max(np.abs(W))
    big = np.abs(W) > 1e-12 * np.max(np.abs(W))
    if np.any(q & big):
        return "stiffness-entries", f"entries {np.argwhere(q & big)[:3].tolist()}: {K[q & big][:3]} expected {W[q & big][:3]}"


def check(c):
    if degenerate(c):
        return None
    W = stiff(c)
    b = obj(c)
    m = make(c)
    K = dense(b.integrate_K()).astype(float)
    r = entries(K, W)
    if r:
        return r
    w = np.linalg.eigvalsh((K + K.T) / 2)
    T = dense(m.get_beam_transform_matrix("B"))
    return first(expect("stiffness", K, W), expect("symmetric", K, K.T), expect("length", b.length, length(c)),
                 None if w[0] > -1e-8 * max(w[-1], 1) else ("indefinite", str(w[0])),
                 None if np.sum(w < 1e-9 * w[-1]) <= 6 or max(c["s"].values()) > 1e3 * min(c["s"].values()) or not .3 < length(c) < 30 else ("singular", "more than six free motions"),
                 expect("model-stiffness", dense(m.get_beam_K("B")).astype(float), W),
                 expect("model-stiffness-global", dense(m.get_beam_K("B", local=False)).astype(float), T.T @ W @ T),
                 expect("repeatable", dense(b.integrate_K()).astype(float), W))
