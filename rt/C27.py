"""random spectra against the formula of GB 50011-2010 5.1.5"""
from rt.common import *
from hyperstatic.app.design.GB.seismic.spectrum import GB50010
from hyperstatic.app.seismic.wave2spec import GB50011_spectrum
CORNERS = [{"a": .08, "Tg": .35, "z": .05, "dt": .02}, {"a": .72, "Tg": .9, "z": .02, "dt": .1}, {"a": .16, "Tg": .25, "z": .3, "dt": .5}, {"a": .16, "Tg": .4, "z": .9, "dt": .25}, {"a": .16, "Tg": 1.3, "z": 0, "dt": .01}, {"a": 1, "Tg": .1, "z": .05, "dt": .05}]


def gen(rng, i):
    return {"a": rng.uniform(.01, 2), "Tg": rng.choice([.25, .35, .45, .65, .9, rng.uniform(.1, 2)]), "z": rng.choice([.02, .03, .05, .1, .2, rng.uniform(0, .99)]), "dt": rng.choice([.01, .02, .05, .1, .5])}


def f(t, a, Tg, z):
    g = .9 + (.05 - z) / (.3 + 6 * z)
    e1 = max(0, .02 + (.05 - z) / (4 + 32 * z))
    e2 = max(.55, 1 + (.05 - z) / (.08 + 1.6 * z))
    if t < .1:
        return (.45 + (e2 - .45) * t / .1) * a
    if t < Tg:
        return e2 * a
    if t < 5 * Tg:
        return (Tg / t) ** g * e2 * a
    return (e2 * .2 ** g - e1 * (t - 5 * Tg)) * a


def check(c):
    a, Tg, z, dt = (float(c[k]) for k in ("a", "Tg", "z", "dt"))
    if not (.1 <= Tg <= 2.5 and 0 <= z < 1 and .001 <= dt <= 3 and a > 0):
        return None
    near = lambda t: any(abs(t - x) < 1e-9 for x in (.1, Tg, 5 * Tg))
    s = GB50010(a, Tg, z).spectrum
    r = expect("periods", s["T"], [i / 100 for i in range(601)])
    if r:
        return r
    if len(s["alpha"]) != 601:
        return ("alpha-length", str(len(s["alpha"])))
    for t, v in zip(s["T"], s["alpha"]):
        ok = [f(t + d, a, Tg, z) for d in ((-2e-9, 0, 2e-9) if near(t) else (0,))]
        if min(abs(v - w) for w in ok) > 1e-7 * a:
            return ("GB50010", f"alpha({t!r}) = {v!r} instead of {ok[0]!r}")
    d = GB50011_spectrum(a, Tg, z, dt)
    ks = sorted(d)
    n = len(ks)
    if not (6 / dt - 1 - 1e-6 <= n <= 6 / dt + 1 + 1e-6):
        return ("GB50011-count", f"{n} periods for dt={dt}")
    r = expect("GB50011-periods", ks, [i * dt for i in range(n)])
    if r:
        return r
    for t in ks:
        ok = [f(t + e, a, Tg, z) for e in ((-2e-9, 0, 2e-9) if near(t) else (0,))]
        if min(abs(d[t] - w) for w in ok) > 1e-7 * a:
            return ("GB50011", f"alpha({t!r}) = {d[t]!r} instead of {ok[0]!r}")
