"""random point triples (mixed int/float, axis-aligned, obtuse, large and small), collinear triples;
non-trivial: distinct triples"""
from rt.common import *
from hyperstatic.common.csys import Cartesian

CORNERS = [{"O": [0, 0, 0], "A": [1, 0, 0], "B": [0, 1, 0]}, {"O": [0, 0, 0], "A": [0, 0, 3], "B": [0, -2, 0]},
           {"O": [1, 1, 1], "A": [2, 2, 2], "B": [3, 3, 3]}, {"O": [1, 1, 1], "A": [1, 1, 1], "B": [3, 3, 3]},
           {"O": [0, 0, 0], "A": [1, 2, 3], "B": [-1, -2, -3]}, {"O": [0, 0, 0], "A": [1, 2, 0], "B": [2, 4, 0]},
           {"O": [0, 0, 0], "A": [1e4, 0, 0], "B": [1e4, 1, 0]}, {"O": [0, 0, 0], "A": [1, 0, 0], "B": [1, 1, 1]},
           {"O": [0, 0, 0], "A": [1, 0, 0], "B": [1, 1e-3, 0]}, {"O": [0, 0, 0], "A": [1, 0, 0], "B": [1, 1e-5, 0]}, {"O": [2, 0, 0], "A": [2, 3, 0], "B": [2, -4, 1e-4]}, {"O": [0, 0, 0], "A": [1, 0, 0], "B": [1, 2e-10, 0]}, {"O": [0, 0, 0], "A": [1, 0, 0], "B": [1, -2e-10, 1e-10]}, {"O": [0, 0, 0], "A": [0, 1, 0], "B": [1e-10, -1, 1e-10]}, {"O": [0, 0, 0], "A": [1e-3, 0, 0], "B": [0, 0, 1e-3]}]


def gen(rng, i):
    O, A, B = rvec(rng), rvec(rng), rvec(rng)
    if rng.random() < 0.15:
        k = rng.choice([-2, -1, 2, 3])
        O, A = [rng.randint(-5, 5) for _ in O], [rng.randint(-5, 5) for _ in O]
        B = [o + k * (a - o) for o, a in zip(O, A)]
    elif rng.random() < 0.2:            # plane normal of nearly unit length, or both legs of nearly unit length
        a, b = np.subtract(A, O), np.subtract(B, O)
        n = np.linalg.norm(np.cross(a, b))
        if n > 1e-3:
            if rng.random() < 0.5:
                B = [float(x) for x in O + b * rng.uniform(0.99, 1.01) / n]
            else:
                A, B = ([float(x) for x in O + v / np.linalg.norm(v) * rng.uniform(0.99, 1.01)] for v in (a, b))
    return {"O": O, "A": A, "B": B}


def check(c):
    O, A, B = (np.array(c[k], float) for k in "OAB")
    a, b = A - O, B - O
    n = np.cross(a, b)
    s = np.linalg.norm(a) * np.linalg.norm(b)
    m = np.max(np.abs(n))
    for conv in (tuple, list, np.array):
        args = [conv(c[k]) for k in "OAB"]
        try:
            k = Cartesian(*args)
        except Exception as e:
            if m > 1.5e-9:
                return ("rejects-good", f"rejects non-collinear points ({type(e).__name__}: {e})")
            continue
        if m == 0 or m < 5e-10 and s < 2:
            return ("accepts-collinear", "points accepted that are collinear within the tolerance")
        if m < 1e-7 * max(s, 1):
            continue
        T = k.transform_matrix
        r = first(frame_ok(T), expect("origin", k.origin, O),
                  expect("x", T[0], a / np.linalg.norm(a), atol=1e-8), expect("B-in-plane", T[2] @ b / np.linalg.norm(b), 0, atol=1e-8),
                  None if T[1] @ b > 0 else ("y-side", "B is on the negative y side"),
                  expect("axes", [k.x, k.y, k.z], T))
        if r:
            return r
