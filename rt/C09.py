"""random members and relative locations in [0,1] (ends included): values, slopes (also by differences), callable shape functions"""
from rt.beamrt import *
from rt import C06
from hyperstatic.core.fe_model.assembly import Assembly

CORNERS = [dict(c, xi=[0, 1, 0.5, 1 / 3]) for c in C06.CORNERS]


def gen(rng, i):
    return dict(C06.gen(rng, i), xi=[0, 1, round(rng.random(), 4), rng.random()])


def want(L, x, der=False):
    g = (lambda p: spec.peval(spec.pder(p), x) / L) if der else (lambda p: spec.peval(p, x))
    h = [g(spec.HERMITE[i]) * L ** spec.HPOW[i] for i in range(4)]
    a = [g(spec.LIN[i]) for i in range(2)]
    return np.array(a + h + [-h[0], h[1], -h[2], h[3]] + a, float)


def check(c):
    if degenerate(c):
        return None
    L = length(c)
    b, m = obj(c), make(c)
    a = Assembly(m, [])
    for x in c["xi"]:
        r = first(expect("interpolate", b.interpolate(x), want(L, x)), expect("interpolate1", b.interpolate1(x), want(L, x, True)),
                  expect("shape-functions", [f(x) for f in b.get_shape_function()], want(L, x)),
                  expect("model-interpolate", m.get_beam_interpolate("B", x), want(L, x)), expect("model-interpolate1", m.get_beam_interpolate1("B", x), want(L, x, True)),
                  expect("model-shape-functions", [f(x) for f in m.get_beam_shape_function("B")], want(L, x)),
                  expect("assembly-interpolate", a.get_beam_interpolate("B", x), want(L, x)), expect("assembly-interpolate1", a.get_beam_interpolate1("B", x), want(L, x, True)))
        if r:
            return r
