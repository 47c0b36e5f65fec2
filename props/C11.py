"""Concentrated beam loads: equivalent end loads of a point force and moment at a relative location; superposed with a distributed load."""
from vc.api import *
import spec

FUNCTIONS = ["core.fe_model.load.pattern.LoadPattern.set_beam_load_conc/get_beam_f/get_beam_concentrated"]
NAMES = ["F1", "F2", "F3", "M1", "M2", "M3"]


def contracts(E):
    pm = load("hyperstatic.core.fe_model.load.pattern")
    v = V(*NAMES)
    d = vec("d", 8)
    l, r = var("l", pos=True), var("r")
    case = {"v": v, "d": list(d), "l": l, "r": r}

    def dom(E):
        E.assume(conj(r >= 0, r <= 1))

    def c(E):
        dom(E)
        P = pm.LoadPattern("p")
        P.set_beam_load_conc("B", *v, r)
        f = P.get_beam_f("B", l)
        W = spec.concentrated(v[:3], v[3:], r, l)
        E.eq("work-consistent end loads", f, W)
        E.eq("force equilibrium", [f[k] + f[6 + k] for k in range(3)], v[:3])
        E.eq("torque equilibrium", f[3] + f[9], v[3])
        E.eq("moment equilibrium about 2", f[4] + f[10] - f[8] * l, v[4] - v[2] * r * l)
        E.eq("moment equilibrium about 3", f[5] + f[11] + f[7] * l, v[5] + v[1] * r * l)
        E.eq("unloaded beam", P.get_beam_f("C", l), [0] * 12)
        E.eq("stored load", P.get_beam_concentrated("B"), list(v) + [r])
        E.eq("repeatable", P.get_beam_f("B", l), W)
    E.run("concentrated load", c, case_of=case, hints=[dict(r=0.3), dict(r=0), dict(r=1), dict(r=0.75)], functions=FUNCTIONS)

    def m(E):
        dom(E)
        P = pm.LoadPattern("p")
        P.set_beam_load_conc("B", r=r, **dict(zip(NAMES, v)))
        n = ["pi", "qi2", "qi3", "ti", "pj", "qj2", "qj3", "tj"]
        P.set_beam_load_dist("B", **dict(zip(n, d)))
        W = [a + b for a, b in zip(spec.concentrated(v[:3], v[3:], r, l), spec.distributed(list(d), l))]
        E.eq("concentrated and distributed loads add", P.get_beam_f("B", l), W)
        Q = pm.LoadPattern("q")
        Q.set_beam_load_conc("B", F2=v[1])
        E.eq("default location is midspan", Q.get_beam_f("B", l), spec.concentrated([0, v[1], 0], [0, 0, 0], sym.Fraction(1, 2), l))
    E.run("combined load", m, case_of=case, hints=[dict(r=0.3), dict(r=0.75)], functions=FUNCTIONS)
