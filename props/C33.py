"""The compiled shell kernels: K = rho B^T D B with strains B that vanish in rigid motions and are exact for constant strain / curvature."""
from vc.api import *
from vc.ckernel import Kernel, Z, PRIME, random

D = "core.fe_model.meta."
FUNCTIONS = [D + "plates.metaDKT/wrapped_code_0.c:autofunc", D + "plates.metaDKQ/wrapped_code_0.c:autofunc", D + "membranes.GQ12/wrapped_code_0.c:autofunc", D + "*/meta*.pyx:autofunc_c"]
ASSUME = ["the C text of the kernel is evaluated as written in exact arithmetic (vc/ckernel.py); rounding and the C compiler are not covered", "the element is not degenerate: distinct nodes, Jacobian not zero, -1 < mu < 1",
          "the .pyx wrapper passes its arguments on in the order read from its call", "symmetry, absence of energy in rigid motions, exactness for constant strains and non-negative energy follow from K = rho B^T D B, B R = 0, B C = 1, D positive definite (linear algebra)"]
RT_N = {"quick": 30, "thorough": 300}
CASE_SECONDS = 20


def modes(plate, X, O, Zr, h):
    """rigid motions and states of constant strain, as nodal freedoms"""
    if plate:       # freedoms w, w,y, -w,x
        R = [[c for x, y in X for c in (O, Zr, Zr)], [c for x, y in X for c in (x, Zr, -O)], [c for x, y in X for c in (y, O, Zr)]]
        C = [[c for x, y in X for c in (x * x * h, Zr, -x)], [c for x, y in X for c in (y * y * h, y, Zr)], [c for x, y in X for c in (x * y * h, x * h, -(y * h))]]
    else:           # freedoms u, v, drilling
        R = [[c for x, y in X for c in (O, Zr, Zr)], [c for x, y in X for c in (Zr, O, Zr)], [c for x, y in X for c in (-y, x, Zr)]]
        C = [[c for x, y in X for c in (x, Zr, Zr)], [c for x, y in X for c in (Zr, y, Zr)], [c for x, y in X for c in (y * h, x * h, Zr)]]
    return R, C


def jacobian(plate, X, xi, eta, q, zero):
    """determinant of the Jacobian of the bilinear map (twice the area of a triangle)"""
    if len(X) == 3:
        (a, b), (c, d), (e, f) = X
        return (c - a) * (f - b) - (e - a) * (d - b)
    ns = [(-1, -1), (1, -1), (1, 1), (-1, 1)] if plate else [(1, -1), (1, 1), (-1, 1), (-1, -1)]
    o = q(1)

    def diff(c, xi_first):
        t = zero
        for (x, e), p in zip(ns, X):
            t = t + p[c] * q(x if xi_first else e) * (o + (q(e) * eta if xi_first else q(x) * xi))
        return t / q(4)
    return diff(0, True) * diff(1, False) - diff(1, True) * diff(0, False)


def stress(plate, E, mu, t, q):
    f = (t * t * t / q(12) if plate else t) * E / (q(1) - mu * mu)
    return [[f, f * mu, None], [f * mu, f, None], [None, None, f * (q(1) - mu) / q(2)]]


def contracts(E):
    for nm, plate, n in (("metaDKT", True, 3), ("metaDKQ", True, 4), ("metaGQ12", False, 4)):
        def c(E):
            k = Kernel(nm)
            m = 3 * n
            order = ["E", "mu", "t", "xi", "eta"] + [x + str(i + 1) for i in range(n) for x in "xy"]
            E.same("size", k.shape == (m, m) and len(k.args) == len(order))
            # ghost: the strain matrix at a random point, to propose which subexpressions are its entries
            cache = {}

            def ghost(pt):
                if not cache:
                    p = [pt[a] for a in k.args]
                    M = k(*p, const=Z.of)
                    Em, mu, t, xi, eta = p[:5]
                    X = [(p[5 + 2 * i], p[6 + 2 * i]) for i in range(n)]
                    q, z = Z.of, Z(0)
                    R, C = modes(plate, X, q(1), z, q(1) / q(2))
                    J = jacobian(plate, X, xi, eta, q, z)
                    rho = q(1) if n == 3 else J
                    Dm = stress(plate, Em, mu, t, q)
                    f = Dm[0][0]
                    KC = [[zsum(a * b for a, b in zip(row, cc)) for cc in C] for row in M]
                    # B^T = K C D^-1 / rho
                    g = q(1) / (f * (q(1) - mu * mu))
                    cache["J"] = J
                    for i in range(m):
                        a = KC[i]
                        cache[0, i], cache[1, i] = (a[0] - mu * a[1]) * g / rho, (a[1] - mu * a[0]) * g / rho
                        cache[2, i] = a[2] / Dm[2][2] / rho
                return cache
            Em, t, mu = var("E", pos=True), var("t", pos=True), var("mu")
            E.assume(conj(mu > -1, mu < 1))
            xi, eta = V("xi", "eta")
            X = [V(f"x{i + 1}", f"y{i + 1}") for i in range(n)]
            vals = [Em, mu, t, xi, eta] + [w for p in X for w in p]
            J = var("J")
            E.assume(J != 0)
            named, b = {"J": (J, lambda pt: ghost(pt)["J"])}, {}
            pt0, same = ghost({a: Z(random.Random(a).randrange(PRIME)) for a in k.params}), {}
            alias = {}      # entries of B with the same value (up to sign) are one quantity
            for s in range(3):
                for i in range(m):
                    g = pt0[s, i]
                    if g.v == 0:
                        b[s, i] = S.const(0)
                        continue
                    if g.v in same:
                        alias[s, i] = (same[g.v], 1)
                    elif (-g).v in same:
                        alias[s, i] = (same[(-g).v], -1)
                    if (s, i) in alias:
                        o, sg = alias[s, i]
                        b[s, i] = b[o] * sg
                        continue
                    same[g.v] = (s, i)
                    b[s, i] = var(f"b{s}_{i}")
                    named[s, i] = (b[s, i], lambda pt, key=(s, i): ghost(pt)[key])
                    if n == 3:
                        named["J", s, i] = (b[s, i] * J, lambda pt, key=(s, i): ghost(pt)[key] * ghost(pt)["J"])
            M, cuts = k.abstracted(vals, {"E", "mu", "t"}, named)
            # values of the cut subexpressions, relative to the first node
            x0 = V("x1", "y1")
            d = [[S.const(0), S.const(0)]] + [V(f"dx{i + 1}", f"dy{i + 1}") for i in range(1, n)]
            v = k.evaluator([Em, mu, t, xi, eta] + [x0[q] + d[i][q] for i in range(n) for q in (0, 1)], S.const)
            q, z = S.const, S.const(0)
            Jv = jacobian(plate, d, xi, eta, q, z)
            E.assume(Jv != 0)
            for i in range(n):
                e = [d[i][c] - d[i - 1][c] for c in (0, 1)]
                E.assume(e[0] * e[0] + e[1] * e[1] != 0)
            B = {}
            for node, (key, s) in cuts.items():
                if key == "J":
                    E.eq("Jacobian", v(node) * s, Jv)
                elif key[0] == "J":
                    w = v(node) * s / Jv
                    E.eq("strain", B.setdefault(key[1:], w), w)
                else:
                    w = v(node) * s
                    E.eq("strain", B.setdefault(key, w), w)
            for key in [(s, i) for s in range(3) for i in range(m)]:
                if key in alias:
                    o, sg = alias[key]
                    B[key] = B[o] * sg if o in B else z
                elif key not in B:
                    B[key] = z          # zero, or never met: then the obligations below do not hold
            E.same("moving the element changes nothing", not any(a in e.atoms() for e in B.values() for x in x0 for a in x.atoms()))
            R, C = modes(plate, d, q(1), z, q(1) / 2)
            for s in range(3):
                for r in range(3):
                    E.eq("no strain in a rigid motion", dot([B[s, i] for i in range(m)], R[r]), z)
                    E.eq("a constant strain is reproduced", dot([B[s, i] for i in range(m)], C[r]), q(1 if r == s else 0))
            Dm = stress(plate, Em, mu, t, q)
            rho = q(1) if n == 3 else J
            for i in range(m):
                for j in range(m):
                    w = Dm[0][0] * (b[0, i] * b[0, j] + b[1, i] * b[1, j]) + Dm[0][1] * (b[0, i] * b[1, j] + b[1, i] * b[0, j]) + Dm[2][2] * b[2, i] * b[2, j]
                    E.eq(f"stiffness is B^T D B, entry {i},{j}", M[i, j], rho * w)
        E.run(nm, c, functions=FUNCTIONS)


def zsum(it):
    t = Z(0)
    for x in it:
        t = t + x
    return t
