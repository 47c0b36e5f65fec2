"""Independent specification of the frame element, from Hermite/Lagrange polynomials (exact integration).
Generic over the scalar type: exact symbolic scalars in the contracts, floats in the run-time contracts."""
from fractions import Fraction as Fr

# polynomials in xi on [0,1]: lists of coefficients
HERMITE = [[1, 0, -3, 2], [0, 1, -2, 1], [0, 0, 3, -2], [0, 0, -1, 1]]   # value, slope*l, value, slope*l
HPOW = [0, 1, 0, 1]                                                       # power of l
LIN = [[1, -1], [0, 1]]
B3 = [(1, 0, 1), (5, 1, 1), (7, 2, 1), (11, 3, 1)]        # (dof, hermite index, sign): bending about local 3
B2 = [(2, 0, 1), (4, 1, -1), (8, 2, 1), (10, 3, -1)]      # bending about local 2 (rotation = -dw/dx)
AX = [(0, 0), (6, 1)]
TO = [(3, 0), (9, 1)]


def padd(p, q):
    n = max(len(p), len(q))
    return [(p[i] if i < len(p) else 0) + (q[i] if i < len(q) else 0) for i in range(n)]


def pmul(p, q):
    r = [0] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] = r[i + j] + a * b
    return r


def pder(p):
    return [i * c for i, c in enumerate(p)][1:] or [0]


def pint(p):
    """integral over [0,1]"""
    t = 0
    for i, c in enumerate(p):
        t = t + c * Fr(1, i + 1)
    return t


def peval(p, x):
    r = 0
    for c in reversed(p):
        r = r * x + c
    return r


def lp(l, k):
    r = 1
    for _ in range(k):
        r = r * l
    return r


def num(c, like):
    """exact rational as a scalar of the same kind as `like`"""
    return float(c) if isinstance(like, float) else c


def stiffness(E, G, A, I2, I3, J, l):
    """{(i,j): value}: non-zero entries of the 12x12 Euler-Bernoulli stiffness (local axes)"""
    K = {}
    for D, dofs in ((E * A, AX), (G * J, TO)):
        for i, a in dofs:
            for j, b in dofs:
                K[i, j] = D / l * num(pint(pmul(pder(LIN[a]), pder(LIN[b]))), l)
    for D, dofs in ((E * I3, B3), (E * I2, B2)):
        for i, a, s in dofs:
            for j, b, t in dofs:
                c = pint(pmul(pder(pder(HERMITE[a])), pder(pder(HERMITE[b]))))
                K[i, j] = D * lp(l, HPOW[a] + HPOW[b]) / (l * l * l) * num(c * s * t, l)
    return K


def mass_consistent(rho, A, J, l):
    M = {}
    for D, dofs in ((rho * A, AX), (rho * J, TO)):
        for i, a in dofs:
            for j, b in dofs:
                M[i, j] = D * l * num(pint(pmul(LIN[a], LIN[b])), l)
    for dofs in (B3, B2):
        for i, a, s in dofs:
            for j, b, t in dofs:
                M[i, j] = rho * A * l * lp(l, HPOW[a] + HPOW[b]) * num(pint(pmul(HERMITE[a], HERMITE[b])) * s * t, l)
    return M


def distributed(v, l):
    """equivalent end loads of linearly varying line loads; v = [p,q2,q3,t at i; p,q2,q3,t at j]"""
    f = [0 * l] * 12
    for k, dofs in ((0, AX), (3, TO)):
        q = [v[k], v[4 + k] - v[k]]
        for i, a in dofs:
            f[i] = l * _pintmix(LIN[a], q)
    for k, dofs in ((1, B3), (2, B2)):
        q = [v[k], v[4 + k] - v[k]]
        for i, a, s in dofs:
            f[i] = l * lp(l, HPOW[a]) * _pintmix(HERMITE[a], q) * s
    return f


def _pintmix(p, q):
    """integral of rational polynomial p times scalar-coefficient polynomial q"""
    t = 0
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            c = Fr(a, i + j + 1)
            t = t + b * num(c, b)
    return t


def concentrated(F, M, r, l):
    """equivalent end loads of a point force F and moment M (local components) at relative location r"""
    f = [0 * l] * 12
    for i, a in AX:
        f[i] = F[0] * peval(LIN[a], r)
    for i, a in TO:
        f[i] = M[0] * peval(LIN[a], r)
    for i, a, s in B3:          # moment about 3 works on dv/dx
        f[i] = lp(l, HPOW[a]) * (F[1] * peval(HERMITE[a], r) + M[2] * peval(pder(HERMITE[a]), r) / l) * s
    for i, a, s in B2:          # moment about 2 works on -dw/dx
        f[i] = lp(l, HPOW[a]) * (F[2] * peval(HERMITE[a], r) - M[1] * peval(pder(HERMITE[a]), r) / l) * s
    return f


def condense(K, rel):
    """static condensation of a dense matrix (list of lists): Schur complement of the released dofs, eliminated in
    descending order, zero pivots (free mechanism already) skipped.  `iszero` by exact comparison."""
    n = len(K)
    K = [list(r) for r in K]
    for p in sorted(rel, reverse=True):
        if K[p][p] == 0:
            continue
        col = [K[i][p] for i in range(n)]
        row = [K[p][j] / K[p][p] for j in range(n)]
        for i in range(n):
            for j in range(n):
                K[i][j] = K[i][j] - col[i] * row[j]
    return K
