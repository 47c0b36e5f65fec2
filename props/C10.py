"""Distributed beam loads: equivalent end loads are the work-consistent ones of a linearly varying line load, for every combination of intensities."""
from vc.api import *
import spec

FUNCTIONS = ["core.fe_model.load.pattern.LoadPattern.set_beam_load_dist/get_beam_f/get_beam_distributed"]
NAMES = ["pi", "qi2", "qi3", "ti", "pj", "qj2", "qj3", "tj"]


def contracts(E):
    pm = load("hyperstatic.core.fe_model.load.pattern")
    v = V(*NAMES)
    l = var("l", pos=True)

    def c(E):
        P = pm.LoadPattern("p")
        P.set_beam_load_dist("B", **dict(zip(NAMES, v)))
        f = P.get_beam_f("B", l)
        W = spec.distributed(v, l)
        E.eq("work-consistent end loads", f, W)
        # equilibrium with the resultant of the load (independent of the shape functions)
        R = [(v[k] + v[4 + k]) / 2 * l for k in range(4)]
        X = [(v[k] + 2 * v[4 + k]) / 6 * l * l for k in range(4)]        # first moment about the start
        E.eq("axial equilibrium", f[0] + f[6], R[0])
        E.eq("force equilibrium 2", f[1] + f[7], R[1])
        E.eq("force equilibrium 3", f[2] + f[8], R[2])
        E.eq("torque equilibrium", f[3] + f[9], R[3])
        E.eq("moment equilibrium about 3", f[5] + f[11] + f[7] * l, X[1])
        E.eq("moment equilibrium about 2", f[4] + f[10] - f[8] * l, -X[2])
        E.eq("stored intensities", P.get_beam_distributed("B"), [v[0], v[1], v[2], v[3], 0, 0, v[4], v[5], v[6], v[7], 0, 0])
        E.eq("repeatable", P.get_beam_f("B", l), W)
        E.eq("unloaded beam", P.get_beam_f("C", l), [0] * 12)
    E.run("distributed load", c, case_of={"v": v, "l": l}, functions=FUNCTIONS)

    def d(E):
        P = pm.LoadPattern("p")
        P.set_beam_load_dist("B", v[0], v[4], v[1], v[5], v[2], v[6], v[3], v[7])
        E.eq("positional arguments: value at i, value at j per component", P.get_beam_f("B", l), spec.distributed(v, l))
        Q = pm.LoadPattern("q")
        Q.set_beam_load_dist("B", qi3=v[2])
        E.eq("omitted components are zero", Q.get_beam_f("B", l), spec.distributed([0, 0, v[2], 0, 0, 0, 0, 0], l))
    E.run("distributed load arguments", d, case_of={"v": v, "l": l}, functions=FUNCTIONS)
