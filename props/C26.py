"""Curves: points as given; sine and cosine curves have n equidistant points with the function's values."""
from vc.api import *
from vc import idxset

FUNCTIONS = ["common.curve.Curve." + k for k in ("__init__", "name/x/y", "to_array", "sin", "cos")]
ASSUME = ["np.sin and np.cos are the mathematical functions (rounding is exercised by the run-time contract)"]
RT_N = {"quick": 300, "thorough": 8000}


def contracts(E):
    m = load("hyperstatic.common.curve")
    A, w, ph = V("A", "w", "phi")
    dt, n = var("dt", pos=True), var("n", pos=True)
    for nm, f in (("sin", ssin), ("cos", scos)):
        def c(E):
            k = getattr(m.Curve, nm)("c1", A, w, ph, dt, n)
            i = var("i", nonneg=True)
            a = k.to_array()
            E.same("name", k.name == "c1")
            E.eq("n points", [k.x.shape[0], k.y.shape[0]], [n, n])
            E.eq("equidistant times from 0", k.x.at(i), dt * i)
            E.eq(f"values A {nm}(w x + phi)", k.y.at(i), A * f(w * dt * i + ph))
            E.eq("array of two rows", [a[0, i], a[1, i]] + list(a.shape), [k.x.at(i), k.y.at(i), 2, n])
        E.run(nm, c, case_of={"k": nm, "p": [A, w, ph, dt, 5]}, functions=FUNCTIONS, hints=[dict(A=2, w=1, phi=1, dt=1), dict(A=3, w=2, phi=0, dt=2)], numeric=False)

    def c(E):
        X, Y = idxset.LVec(n, lambda i: fn("x", i)), idxset.LVec(n, lambda i: fn("y", i))
        q, i = m.Curve("c2", X, Y), var("i", nonneg=True)
        a = q.to_array()
        E.same("name", q.name == "c2")
        E.eq("points as given", [q.x.shape[0], q.y.shape[0], q.x.at(i), q.y.at(i)], [n, n, fn("x", i), fn("y", i)])
        E.eq("array of two rows", [a[0, i], a[1, i]] + list(a.shape), [fn("x", i), fn("y", i), 2, n])
    E.run("given points, any number", c, functions=FUNCTIONS, abstract=True)
    x, y = vec("x", 3), vec("y", 3)

    def c(E):
        q = m.Curve("c2", list(x), list(y))
        E.eq("points", [list(q.x), list(q.y)], [list(x), list(y)])
        E.eq("array", [list(r) for r in q.to_array()], [list(x), list(y)])
    E.run("given points, a list of three", c, case_of={"k": "pts", "x": list(x), "y": list(y)}, functions=FUNCTIONS)
