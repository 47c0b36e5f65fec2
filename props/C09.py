"""Interpolation along a beam: end values, cubic/linear shape, slope = derivative, callable shape functions agree."""
from vc.api import *
from props.C06 import member, place, full, HINT
import spec

FUNCTIONS = ["core.fe_model.element.line.%s.interpolate/interpolate1/get_shape_function" % x for x in ("beam.Beam", "simple_beam.SimpleBeam")] + \
            ["core.fe_model.model.Model.get_beam_interpolate/get_beam_interpolate1/get_beam_shape_function", "core.fe_model.assembly.Assembly.get_beam_interpolate*"]
ASSUME = ["displacement along local 3 is reported with the sign convention of the code (negated), as fixed by the shape functions"]


def want(L, x):
    h = [spec.peval(spec.HERMITE[i], x) * spec.lp(L, spec.HPOW[i]) for i in range(4)]
    a = [spec.peval(spec.LIN[i], x) for i in range(2)]
    return a + h + [-h[0], h[1], -h[2], h[3]] + a


def want1(L, x):
    h = [spec.peval(spec.pder(spec.HERMITE[i]), x) * spec.lp(L, spec.HPOW[i]) / L for i in range(4)]
    a = [spec.peval(spec.pder(spec.LIN[i]), x) / L for i in range(2)]
    return a + h + [-h[0], h[1], -h[2], h[3]] + a


def contracts(E):
    x = var("xi")
    m, asm = load("hyperstatic.core.fe_model.model"), load("hyperstatic.core.fe_model.assembly")
    for kind in ("Beam", "SimpleBeam"):
        n, p, d, mk, q = member(kind)
        L = norm(d)

        def c(E):
            place(E, d)
            bm = mk(n.Node("I", *p), n.Node("J", *[a + b for a, b in zip(p, d)]))
            N, N1 = bm.interpolate(x), bm.interpolate1(x)
            E.eq("interpolation", N, want(L, x))
            E.eq("derivative with respect to the axis", N1, want1(L, x))
            E.eq("callable shape functions", [f(x) for f in bm.get_shape_function()], want(L, x))
            e = npo.zeros(12, dtype=object)
            e[[0, 2, 10]] = 1
            e[6] = -1
            E.eq("values at the start", bm.interpolate(0), e)
            e = npo.zeros(12, dtype=object)
            e[[1, 4, 11]] = 1
            e[8] = -1
            E.eq("values at the end", bm.interpolate(1), e)
            e1 = bm.interpolate1(0)
            E.eq("slopes at the start", [e1[i] for i in (2, 3, 4, 5)], [0, 1, 0, 0])
            e1 = bm.interpolate1(1)
            E.eq("slopes at the end", [e1[i] for i in (2, 3, 4, 5)], [0, 0, 0, 1])
            E.eq("rigid translation reproduced", [N[0] + N[1], N[2] + N[4], N[6] + N[8], N[10] + N[11]], [1, 1, -1, 1])
            E.eq("rigid rotation reproduced", N[3] + N[5] + L * N[4], L * x)
        E.run(f"{kind} interpolation", c, case_of={"kind": kind, "p": p, "q": [a + b for a, b in zip(p, d)], "s": q, "xi": [x]}, hints=HINT, functions=FUNCTIONS)

    p, d = V("px", "py", "pz"), V("dx", "dy", "dz")
    q = {k: var(k, pos=(k != "mu")) for k in ("E", "mu", "A", "I2", "I3", "J", "rho")}

    def c(E):
        place(E, d)
        M = m.Model()
        M.add_node("I", *p)
        M.add_node("J", *[a + b for a, b in zip(p, d)])
        M.add_simple_beam("B", "I", "J", q["E"], q["mu"], q["A"], q["I2"], q["I3"], q["J"], q["rho"])
        L = norm(d)
        a = asm.Assembly(M, [])
        E.eq("Model.get_beam_interpolate", M.get_beam_interpolate("B", x), want(L, x))
        E.eq("Model.get_beam_interpolate1", M.get_beam_interpolate1("B", x), want1(L, x))
        E.eq("Assembly.get_beam_interpolate", a.get_beam_interpolate("B", x), want(L, x))
        E.eq("Assembly.get_beam_interpolate1", a.get_beam_interpolate1("B", x), want1(L, x))
        E.eq("Assembly.get_beam_shape_function", [f(x) for f in a.get_beam_shape_function("B")], want(L, x))
    E.run("Model/Assembly interpolation", c, case_of={"kind": "SimpleBeam", "p": p, "q": [a + b for a, b in zip(p, d)], "s": q, "xi": [x]}, hints=HINT, functions=FUNCTIONS)
