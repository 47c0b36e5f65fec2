"""random frames, angles and rotation sequences (1-4 operations), compared with Rodrigues' formula"""
from rt.common import *
from hyperstatic.common.csys import Cartesian
OPS = ["rotate_about_external_x", "rotate_about_external_y", "rotate_about_external_z", "rotate_about_x", "rotate_about_y", "rotate_about_z",
       "rotate_about_vec", "align_with_global"]


CORNERS = [{"k": k, "O": [0, 0, 0], "A": [1, 0, 0], "B": [0, 1, 0], "th": th, "v": [1, 2, 3], "more": [["rotate_about_external_z", math.pi / 2], ["align_with_global", 0]]} for k in OPS for th in (math.pi / 2, 5e-6, -8e-6, math.pi)]


def gen(rng, i):
    w = rng.choice([1, 1, 1, 1e-4, 1e-6, 1e4])
    return {"k": rng.choice(OPS), "O": rvec(rng), "A": rvec(rng), "B": rvec(rng), "th": rng.choice([rnum(rng), rnum(rng), math.pi / 2, -math.pi, 0, 1, 8e-6, -3e-7, 2e-4, 5 * math.pi]), "v": [x * w for x in rvec(rng)],
            "more": [[rng.choice(OPS[:6]), rnum(rng)] for _ in range(rng.randint(0, 3))]}


def check(c):
    try:
        k = Cartesian(c["O"], c["A"], c["B"])
    except Exception:
        return None
    a, b = np.subtract(c["A"], c["O"]), np.subtract(c["B"], c["O"])
    if np.linalg.norm(np.cross(a, b)) < 1e-4 * np.linalg.norm(a) * np.linalg.norm(b):
        return None
    for op, th in [[c["k"], c["th"]]] + c.get("more", []):
        T0 = np.array(k.transform_matrix, float)
        if op == "align_with_global":
            k.align_with_global()
            want = np.eye(3)
        elif op == "rotate_about_vec":
            if np.linalg.norm(c["v"]) < 1e-8:
                continue
            k.rotate_about_vec(*c["v"], th)
            want = T0 @ rot(c["v"], th).T
        else:
            ax = "xyz".index(op[-1])
            getattr(k, op)(th)
            want = T0 @ rot(np.eye(3)[ax] if "external" in op else T0[ax], th).T
        r = first(expect(op, k.transform_matrix, want, atol=1e-9), frame_ok(k.transform_matrix), expect("origin", k.origin, c["O"]))
        if r:
            return r
