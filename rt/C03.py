"""random normals/guides (parallel pairs included), redefinitions and origin moves"""
from rt.common import *
from hyperstatic.common.csys import Cartesian

CORNERS = [{"k": "normal", "O": [0, 0, 0], "n": [0, 0, 1], "g": None}, {"k": "normal", "O": [1, 2, 3], "n": [0, 0, -2], "g": None},
           {"k": "normal", "O": [1, 2, 3], "n": [1, 0, 0], "g": None}, {"k": "normal", "O": [1, 2, 3], "n": [1, 0, 0], "g": [0, 5, 0]},
           {"k": "set3", "O": [1, 1, 1], "A": [2, 2, 2], "B": [3, 3, 3]}, {"k": "set3", "O": [1, 1, 1], "A": [2, 1, 1], "B": [1, 3, 1]}]


def gen(rng, i):
    k = ["normal", "set3", "origin"][i % 3]
    if k == "normal":
        n, g = rvec(rng), rng.choice([None, rvec(rng)])
        if rng.random() < 0.1:
            n = [rng.randint(-5, 5) for _ in range(3)]
            g = [rng.choice([-1, 2]) * x for x in n]
        return {"k": k, "O": rvec(rng), "n": n, "g": g}
    O, p = rvec(rng), rvec(rng)
    if rng.random() < 0.3:              # small moves, along one axis too
        p = [x + rng.choice([0, 1, -1, 0.5]) * 10.0 ** -rng.randint(2, 6) for x in O]
    return {"k": k, "O": O, "A": rvec(rng), "B": rvec(rng), "p": p}


def untouched(own, kept):
    for a, b in zip(own, kept):
        if not np.array_equal(a, b):
            return ("argument-changed", f"an argument was changed from {b} to {a}")


def check(c):
    k = c["k"]
    if k == "normal":
        n = np.array(c["n"], float)
        g = np.array(c["g"] if c["g"] is not None else (0, 0, 1), float)
        if np.linalg.norm(n) < 1e-9 or np.linalg.norm(g) < 1e-9:
            return None
        n, g = n / np.linalg.norm(n), g / np.linalg.norm(g)
        s = np.linalg.norm(np.cross(n, g))
        args = [tuple(c["O"]), tuple(c["n"])] + ([tuple(c["g"])] if c["g"] is not None else [])
        own = [np.array(x, float) for x in args]        # the caller's own arrays
        kept = [x.copy() for x in own]
        try:
            q = Cartesian.create_by_normal(*args)
            if s > 1e-6:
                q2 = Cartesian.create_by_normal(*own)
                r = untouched(own, kept) or expect("normal-arrays", q2.transform_matrix, q.transform_matrix)
                for x in own:
                    x += 7
                r = r or expect("normal-alias", [q2.origin], [q.origin]) or expect("normal-alias", q2.transform_matrix, q.transform_matrix)
                if r:
                    return r
        except Exception as e:
            return ("normal-rejects", f"rejects a non-parallel guide: {e}") if s > 1e-6 else None
        if s == 0:
            return ("normal-accepts", "parallel guide accepted")
        if s < 1e-6:
            return None
        T = q.transform_matrix
        return first(frame_ok(T), expect("normal-z", T[2], n, atol=1e-8), expect("normal-x", T[0] @ g, 0, atol=1e-8),
                     None if T[1] @ g > 0 else ("normal-y", "guide on the negative y side"), expect("normal-origin", q.origin, c["O"]))
    O, A, B = (np.array(c[x], float) for x in "OAB")
    a, b = A - O, B - O
    m = np.max(np.abs(np.cross(a, b)))
    s = np.linalg.norm(a) * np.linalg.norm(b)
    if k == "set3":
        q = Cartesian((4, 5, 6), (5, 5, 6), (4, 7, 6), "nm")
        try:
            q.set_by_3pts(tuple(c["O"]), tuple(c["A"]), tuple(c["B"]))
        except Exception as e:
            return ("set3-rejects", f"rejects non-collinear points: {e}") if m > 1e-6 and m > 1e-3 * s else \
                first(expect("set3-rejected-axes", q.transform_matrix, np.eye(3)), expect("set3-rejected-xyz", [q.x, q.y, q.z], np.eye(3)), expect("set3-rejected-origin", q.origin, [4, 5, 6]))
        if m == 0:
            return ("set3-accepts", "collinear points accepted")
        if m < 1e-7 * max(s, 1):
            return None
        T = q.transform_matrix
        own = [np.array(x, float) for x in (O, A, B)]
        kept = [x.copy() for x in own]
        q2 = Cartesian((4, 5, 6), (5, 5, 6), (4, 7, 6), "nm")
        q2.set_by_3pts(*own)
        r = untouched(own, kept)
        for x in own:
            x += 7
        r = r or expect("set3-alias", q2.origin, O) or expect("set3-alias", q2.transform_matrix, T)
        if r:
            return r
        return first(frame_ok(T), expect("set3-origin", q.origin, O), expect("set3-x", T[0], a / np.linalg.norm(a), atol=1e-8),
                     expect("set3-plane", T[2] @ b / np.linalg.norm(b), 0, atol=1e-8), None if T[1] @ b > 0 else ("set3-y", "B on the negative side"),
                     expect("set3-axes", [q.x, q.y, q.z], T))
    if m < 1e-6:
        return None
    q = Cartesian(c["O"], c["A"], c["B"])
    T0 = np.array(q.transform_matrix)
    p = np.array(c["p"], float)
    q.origin = p
    p += 5
    r = expect("origin-alias", q.origin, c["p"], rtol=0)
    if r:
        return r
    q.origin = tuple(c["p"])
    return first(expect("origin-move", q.origin, c["p"], rtol=0), expect("origin-axes", q.transform_matrix, T0))
