"""random point forces/moments (single components, mixed int/float) at r in [0,1] incl. both ends, with and without a distributed load"""
from rt.common import *
import spec
from hyperstatic.core.fe_model.load.pattern import LoadPattern

NAMES = ["F1", "F2", "F3", "M1", "M2", "M3"]
DN = ["pi", "qi2", "qi3", "ti", "pj", "qj2", "qj3", "tj"]
CORNERS = [{"v": [1 if i == k else 0 for i in range(6)], "l": l, "r": r, "d": [0] * 8} for k in range(6) for l in (1, 6) for r in (0, 0.25, 0.5, 1)]


def gen(rng, i):
    w = rng.choice([1, 1, 1, 1e-6, 1e6])
    v = [x * w for x in rvec(rng, 6)]
    if rng.random() < 0.3:
        k = rng.randrange(6)
        v = [x if j == k else 0 for j, x in enumerate(v)]
    return {"v": v, "l": rpos(rng) * rng.choice([1, 1, 1, 1, 1e-2, 1e-4, 1e3]), "r": rng.choice([0, 1, 0.5, round(rng.random(), 3), rng.random(), rng.choice([1e-3, 4e-4, 1e-5, .9992, 1 - 1e-5, 1 / 3])]), "d": rvec(rng, 8) if rng.random() < 0.5 else [0] * 8}


def near_w(key, got, want):
    """forces and moments each against their own size"""
    k = [0, 1, 2, 6, 7, 8]
    q = [3, 4, 5, 9, 10, 11]
    return expect(key, got, want, atol=0, rtol=1e-6) or expect(key, np.asarray(got)[k], want[k], atol=0, rtol=1e-7) or expect(key, np.asarray(got)[q], want[q], atol=0, rtol=1e-7)


def check(c):
    if not (0 <= c["r"] <= 1 and c["l"] > 0):
        return None
    v, l, r = [float(x) for x in c["v"]], float(c["l"]), float(c["r"])
    W = np.array(spec.concentrated(v[:3], v[3:], r, l), float)
    P = LoadPattern("p")
    P.set_beam_load_conc("B", r=c["r"], **dict(zip(NAMES, c["v"])))
    e = first(near_w("equivalent-loads", P.get_beam_f("B", c["l"]), W), expect("stored", P.get_beam_concentrated("B"), v + [r]),
              expect("other-beam", P.get_beam_f("C", c["l"]), [0] * 12))
    if e:
        return e
    D = np.array(spec.distributed([float(x) for x in c["d"]], l), float)
    P.set_beam_load_dist("B", **dict(zip(DN, c["d"])))
    Q = LoadPattern("q")
    Q.set_beam_load_conc("B", *c["v"])
    return first(near_w("combined", P.get_beam_f("B", c["l"]), W + D),
                 near_w("default-midspan", Q.get_beam_f("B", c["l"]), np.array(spec.concentrated(v[:3], v[3:], 0.5, l), float)))
