"""random elements and points, kernels compiled from the current C sources: symmetry, no forces in rigid motions, exact energy of constant strains / curvatures, no negative energy"""
from rt.common import *
from rt import kern
KERN = {"metaDKT": (True, 3), "metaDKQ": (True, 4), "metaGQ12": (False, 4)}
U = [[-1, -1], [1, -1], [1, 1], [-1, 1]]
CORNERS = [{"k": "metaDKT", "E": 3, "mu": .25, "t": .5, "x": .2, "y": .3, "X": [[0, 0], [2, 0], [0, 1]]}] + [{"k": k, "E": 3, "mu": .25, "t": .5, "x": x, "y": .4, "X": X}
           for k in ("metaDKQ", "metaGQ12") for x in (0, -.6) for X in (U, [[0, 0], [3, 0], [3, 1], [0, 1]], [[0, 0], [4, .5], [3, 3], [-1, 2]])]


def convex(X):
    n = len(X)
    return all((X[(i + 1) % n][0] - X[i][0]) * (X[(i + 2) % n][1] - X[(i + 1) % n][1]) - (X[(i + 1) % n][1] - X[i][1]) * (X[(i + 2) % n][0] - X[(i + 1) % n][0]) > .05 for i in range(n))


def polygon(rng, n):
    while True:
        s, th = rng.uniform(.3, 5), rng.uniform(0, 6.28)
        c, o = [rng.uniform(-9, 9), rng.uniform(-9, 9)], sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        e = rng.uniform(.3, 1)
        P = [[math.cos(a), e * math.sin(a)] for a in o] if rng.random() < .8 or n == 3 else [[x, e * y] for x, y in U]
        X = [[c[0] + s * (math.cos(th) * x - math.sin(th) * y), c[1] + s * (math.sin(th) * x + math.cos(th) * y)] for x, y in P]
        if convex([[x / s, y / s] for x, y in X]):
            return X


def gen(rng, i):
    k = rng.choice(sorted(KERN))
    n = KERN[k][1]
    x, y = (rng.uniform(-1, 1), rng.uniform(-1, 1)) if n == 4 else sorted([rng.random(), rng.random()])
    return {"k": k, "E": rpos(rng), "mu": round(rng.uniform(0, .49), 3), "t": rpos(rng, .1, 2), "x": x, "y": y - x if n == 3 else y, "X": polygon(rng, n)}


def modes(plate, X):
    if plate:       # w, w,y, -w,x
        R = [[c for x, y in X for c in m] for m in ()]
        R = [sum(([1, 0, 0] for x, y in X), []), sum(([x, 0, -1] for x, y in X), []), sum(([y, 1, 0] for x, y in X), [])]
        C = [sum(([x * x / 2, 0, -x] for x, y in X), []), sum(([y * y / 2, y, 0] for x, y in X), []), sum(([x * y / 2, x / 2, -y / 2] for x, y in X), [])]
    else:
        R = [sum(([1, 0, 0] for x, y in X), []), sum(([0, 1, 0] for x, y in X), []), sum(([-y, x, 0] for x, y in X), [])]
        C = [sum(([x, 0, 0] for x, y in X), []), sum(([0, y, 0] for x, y in X), []), sum(([y / 2, x / 2, 0] for x, y in X), [])]
    return np.array(R, float).T, np.array(C, float).T


def law(plate, E, mu, t):
    return E * (t ** 3 / 12 if plate else t) / (1 - mu ** 2) * np.array([[1, mu, 0], [mu, 1, 0], [0, 0, (1 - mu) / 2]])


def jac(plate, X, x, y):
    if len(X) == 3:
        return 1.0
    s = U if plate else U[1:] + U[:1]
    a = np.array([[p * (1 + q * y) / 4, q * (1 + p * x) / 4] for p, q in s])
    return np.linalg.det(a.T @ np.array(X))


def check(c):
    plate, n = KERN[c["k"]]
    X = np.array(c["X"], float)
    K = kern.install()[c["k"]](c["E"], c["mu"], c["t"], c["x"], c["y"], *X.ravel())
    R, C = modes(plate, X - X[0])
    s = np.max(np.abs(K))
    D = law(plate, c["E"], c["mu"], c["t"])
    return first(expect(c["k"] + "-symmetric", K, K.T, rtol=1e-9),
                 (c["k"] + "-rigid", "forces in a rigid motion " + short(K @ R)) if np.max(np.abs(K @ R)) > 1e-8 * s * max(1, np.max(np.abs(R))) else None,
                 expect(c["k"] + "-patch", C.T @ K @ C, D * jac(plate, X, c["x"], c["y"]), rtol=1e-7),
                 (c["k"] + "-energy", "negative energy") if np.linalg.eigvalsh((K + K.T) / 2)[0] < -1e-8 * s else None)
