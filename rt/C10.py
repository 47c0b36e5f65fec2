"""random intensities (single components, mixed int/float) and lengths: equivalent end loads against exact integration, equilibrium"""
from rt.common import *
import spec
from hyperstatic.core.fe_model.load.pattern import LoadPattern

NAMES = ["pi", "qi2", "qi3", "ti", "pj", "qj2", "qj3", "tj"]
CORNERS = [{"v": [1 if i == k else 0 for i in range(8)], "l": l} for k in range(8) for l in (1, 6, 2.5)]


def gen(rng, i):
    w = rng.choice([1, 1, 1, 1e-6, 1e6])
    m = rng.random()
    v = [x * w for x in rvec(rng, 8)]
    if m < 0.3:
        k = rng.randrange(8)
        v = [x if j == k else 0 for j, x in enumerate(v)]
    return {"v": v, "l": rpos(rng) * rng.choice([1, 1, 1, 1, 1e-2, 1e-4, 1e3])}


def near_w(key, got, want):
    """forces and moments each against their own size"""
    k = [0, 1, 2, 6, 7, 8]
    q = [3, 4, 5, 9, 10, 11]
    return expect(key, got, want, atol=0, rtol=1e-6) or expect(key, np.asarray(got)[k], want[k], atol=0, rtol=1e-7) or expect(key, np.asarray(got)[q], want[q], atol=0, rtol=1e-7)


def check(c):
    if c["l"] <= 0:
        return None
    P = LoadPattern("p")
    P.set_beam_load_dist("B", **dict(zip(NAMES, c["v"])))
    v, l = [float(x) for x in c["v"]], float(c["l"])
    W = np.array(spec.distributed(v, l), float)
    Q = LoadPattern("p")
    Q.set_beam_load_dist("B", *[c["v"][i] for i in (0, 4, 1, 5, 2, 6, 3, 7)])
    return first(near_w("equivalent-loads", P.get_beam_f("B", c["l"]), W), near_w("positional", Q.get_beam_f("B", c["l"]), W),
                 expect("stored", P.get_beam_distributed("B"), v[:4] + [0, 0] + v[4:] + [0, 0]),
                 expect("repeatable", P.get_beam_f("B", c["l"]), W), expect("other-beam", P.get_beam_f("C", c["l"]), [0] * 12))
