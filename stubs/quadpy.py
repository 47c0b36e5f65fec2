"""Minimal stand-in for the third-party quadrature package `quadpy` (absent in this
sandbox), used only when the real code is replayed.  It honours the documented contract
of the real package: scheme.integrate(f, domain) = area(domain) * sum_k w_k f(x_k), with a
rule exact for low-degree polynomials, f called with points of shape (2, n) and returning
(..., n)."""
import numpy as np

class _Scheme:
    def __init__(self, kind, pts, w):
        self.kind, self.pts, self.w = kind, pts, w

    def integrate(self, f, domain):
        d = np.asarray(domain, dtype=float)
        if self.kind == "c2":
            d = d.reshape(2, 2, -1)
            p00, p10 = d[0, 0], d[1, 0]
            p01, p11 = d[0, 1], d[1, 1]
            xi, eta = self.pts
            n = [(1 - xi) * (1 - eta) / 4, (1 + xi) * (1 - eta) / 4,
                 (1 - xi) * (1 + eta) / 4, (1 + xi) * (1 + eta) / 4]
            x = np.array([n[0] * p00[k] + n[1] * p10[k] + n[2] * p01[k] + n[3] * p11[k]
                          for k in range(2)])
            dxi = [(-(1 - eta) * p00[k] + (1 - eta) * p10[k] - (1 + eta) * p01[k] + (1 + eta) * p11[k]) / 4 for k in range(2)]
            det = [(-(1 - xi) * p00[k] - (1 + xi) * p10[k] + (1 - xi) * p01[k] + (1 + xi) * p11[k]) / 4 for k in range(2)]
            J = np.abs(dxi[0] * det[1] - dxi[1] * det[0])
            v = np.asarray(f(x))
            return np.dot(v, self.w * J)
        a, b, c = d[0], d[1], d[2]
        l1, l2 = self.pts
        l0 = 1 - l1 - l2
        x = np.array([l0 * a[k] + l1 * b[k] + l2 * c[k] for k in range(2)])
        area = 0.5 * abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
        v = np.asarray(f(x))
        return area * np.dot(v, self.w)

class _C2:
    @staticmethod
    def get_good_scheme(n):
        m = max(1, (n + 2) // 2)
        g, w = np.polynomial.legendre.leggauss(m)
        X, Y = np.meshgrid(g, g)
        return _Scheme("c2", np.array([X.ravel(), Y.ravel()]), np.outer(w, w).ravel())

    @staticmethod
    def rectangle_points(x, y):
        return np.array([[[x[0], y[0]], [x[0], y[1]]], [[x[1], y[0]], [x[1], y[1]]]])

class _T2:
    @staticmethod
    def get_good_scheme(n):
        m = n // 2 + 2
        g, w = np.polynomial.legendre.leggauss(m)
        u, wu = (g + 1) / 2, w / 2
        U, V = np.meshgrid(u, u)
        W = np.outer(wu, wu)
        l1 = (U * (1 - V)).ravel()
        l2 = V.ravel()
        ww = (W * (1 - V)).ravel() * 2
        return _Scheme("t2", np.array([l1, l2]), ww)

c2 = _C2()
t2 = _T2()
