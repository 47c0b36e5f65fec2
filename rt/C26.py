"""random curves, numbers of points and time steps (also ones that are not representable exactly)"""
from rt.common import *
from hyperstatic.common.curve import Curve
CORNERS = [{"k": "sin", "p": [1, 1, 0, .1, 3]}, {"k": "cos", "p": [2, 3, .5, .02, 51]}, {"k": "sin", "p": [1, 1, 0, .1, 1]}, {"k": "pts", "x": [0, 1, 2], "y": [3, -1, 2]}, {"k": "pts", "x": [], "y": []}]


def gen(rng, i):
    if i % 3 == 0:
        k = rng.randrange(8)
        return {"k": "pts", "x": rvec(rng, k), "y": rvec(rng, k)}
    return {"k": rng.choice(["sin", "cos"]), "p": [rnum(rng), rnum(rng), rnum(rng), rng.choice([.1, .02, .01, .005, .3, rng.uniform(.001, 2)]), rng.randint(1, 200)]}


def check(c):
    if c["k"] == "pts":
        x, y = np.array(c["x"], float), np.array(c["y"], float)
        q = Curve("c", x, y)
        x += 1          # the curve keeps the points it was given
        y *= 3
        r = expect("keeps-its-points", q.to_array(), np.array([c["x"], c["y"]], float))
        if r:
            return r
        q = Curve("c", c["x"], c["y"])
        return first(None if q.name == "c" else ("name", q.name), expect("x", q.x, c["x"]), expect("y", q.y, c["y"]), expect("array", q.to_array(), np.array([c["x"], c["y"]], float)))
    A, w, p, dt, n = c["p"]
    if dt <= 0:
        return None
    q = getattr(Curve, c["k"])("c", A, w, p, dt, n)
    x = [i * dt for i in range(n)]
    if len(q.x) != n or len(q.y) != n:
        return ("points", f"{len(q.x)} points instead of {n}")
    f = getattr(np, c["k"])
    return first(expect("x", q.x, x), expect("y", q.y, [A * f(w * t + p) for t in x]), expect("array", q.to_array(), np.vstack([q.x, q.y])))
