"""Design response spectra of GB 50011: piecewise formula at every period of the grid, for every alpha_max, Tg and damping."""
from vc.api import *
from vc.coll import parts_of, Grid

FUNCTIONS = ["app.design.GB.seismic.spectrum.GB50010.__init__", "app.design.GB.seismic.spectrum.GB50010.spectrum", "app.seismic.wave2spec.GB50011_spectrum"]
ASSUME = ["b ** x is an uninterpreted function of (b, x), the same in code and specification; the run-time contract evaluates it", "Tg >= 0.1, damping >= 0 and below 1",
          "the periods np.arange(0, 6, dt) are the multiples of dt; how many of them there are (rounding at 6) is left open"]
RT_N = {"quick": 60, "thorough": 800}


def spec(E, amax, Tg, z, t):
    c = lambda a, b=1: S.const(a) / b
    g = c(9, 10) + (c(5, 100) - z) / (c(3, 10) + 6 * z)
    e1 = c(2, 100) + (c(5, 100) - z) / (4 + 32 * z)
    e1 = e1 if E.decide(0 < e1) else S.const(0)
    e2 = 1 + (c(5, 100) - z) / (c(8, 100) + c(16, 10) * z)
    e2 = e2 if E.decide(c(55, 100) < e2) else c(55, 100)
    if E.decide(t < c(1, 10)):
        return (c(45, 100) + (e2 - c(45, 100)) * t * 10) * amax
    if E.decide(t < Tg):
        return e2 * amax
    if E.decide(t < 5 * Tg):
        return (Tg / t) ** g * e2 * amax
    return (e2 * c(1, 5) ** g - e1 * (t - 5 * Tg)) * amax


def value(E, parts, el):
    """the entry of the arbitrary element, and that there is exactly one"""
    E.same("one entry per period", len(parts) == 1 and parts[0][0] == "s" and parts[0][1] is el)
    for cond, inner in parts[0][2]:
        if cond is True or E.decide(cond):
            items = [x for q in inner for x in q[1]] if inner and isinstance(inner[0], tuple) and inner[0][0] == "c" else list(inner)
            E.same("exactly one value", len(items) == 1)
            return items[0]
    E.same("a value for every period", False)


def contracts(E):
    amax, Tg = V("alpha_max", "Tg", pos=True)
    z, dt = var("xi", nonneg=True), var("dt", pos=True)
    case = {"a": amax, "Tg": Tg, "z": z, "dt": dt}

    def pre(E):
        E.assume(rel("le", S.const(1) / 10, Tg))
        E.assume(z < 1)

    def c(E):
        pre(E)
        s = load("hyperstatic.app.design.GB.seismic.spectrum").GB50010(amax, Tg, z).spectrum
        T = s["T"]
        E.same("periods are a grid", isinstance(T, Grid))
        E.eq("601 periods from 0 to 6 s", [T.n, T.start, T.step * 600], [601, 0, 6])
        E.eq("alpha(T)", value(E, parts_of(s["alpha"]), T.el), spec(E, amax, Tg, z, T.start + T.step * T.idx))
    E.run("GB50010", c, case_of=case, functions=FUNCTIONS, hints=[dict(alpha_max=1, Tg=1, xi=0, dt=1)])

    def c(E):
        pre(E)
        s = load("hyperstatic.app.seismic.wave2spec").GB50011_spectrum(amax, Tg, z, dt)
        ps = s.parts()
        E.same("one grid", len(ps) == 1 and ps[0][0] == "s")
        el = ps[0][1]
        k, v = value(E, ps, el)
        E.eq("periods are multiples of dt", k, dt * fn("idx", el, nonneg=True))
        E.eq("alpha(T)", v, spec(E, amax, Tg, z, k))
    E.run("GB50011_spectrum", c, case_of=case, functions=FUNCTIONS, hints=[dict(alpha_max=1, Tg=1, xi=0, dt=1)])
