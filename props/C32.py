"""Shell elements: local frame, element matrices composed from the kernels, rotation to global axes, through the model."""
from vc.api import *

M = "core.fe_model.model.Model."
EL = "core.fe_model.element."
FUNCTIONS = [EL + "quad.Quad.__init__", EL + "quad.Quad.area", EL + "quad.DKGQ.DKGQ.integrate_K", EL + "quad.DKGQ.DKGQ.transform_matrix", EL + "tria.Tria.__init__", EL + "tria.Tria.area", EL + "tria.DKT.DKT.integrate_K",
             EL + "tria.DKT.DKT.transform_matrix", M + "add_shell_section", M + "add_shell", M + "get_shell_K", M + "get_shell_transform_matrix", "core.fe_model.section.shell_section.ShellSection"]
ASSUME = ["the compiled kernels enter as arbitrary functions of (E, mu, t, xi, eta, local coordinates), unaffected by a common shift of the coordinates (C33)",
          "quadpy: scheme.integrate(f, domain) is a weighted sum of f at points of the domain, here arbitrary points and weights; a scheme of degree 2 or more is required", "create_by_normal enters through its contract (C03) for elements in general position"]
PARALLEL = True     # the units are independent
RT_N = {"quick": 60, "thorough": 600}
CASE_SECONDS = 20
KP = "hyperstatic.core.fe_model.meta."


class Frame:
    def __init__(self, O, n, guide, T):
        self.origin, self.n, self.guide, self.transform_matrix = npo.array(list(O), dtype=object), n, guide, T
        self.x, self.y, self.z = T[0], T[1], T[2]


class Kernels:
    """contracts of the kernels and of quadpy"""

    def __init__(self, E, tri, want):
        self.E, self.tri, self.want, self.calls, self.rule = E, tri, want, {}, []
        self.pts = [(var(f"xi{k}"), var(f"eta{k}")) for k in range(2)]
        self.w = [var(f"w{k}") for k in range(2)]
        n = 3 if tri else 4
        for full, kind, size in (("plates.metaDKT", "p", 9), ("membranes.T9", "m", 6)) if tri else (("plates.metaDKQ", "p", 12), ("membranes.GQ12", "m", 12)):
            def get(kind=kind, size=size, const=full.endswith("T9")):
                def f(Em, mu, t, *a):
                    if const:
                        k, co = None, a
                    else:
                        xi, eta, co = a[0], a[1], a[2:]
                        ks = [k for k, p in enumerate(self.pts) if p[0] is xi and p[1] is eta]
                        E.same("kernel evaluated at the integration points", len(ks) == 1)
                        k = ks[0]
                    E.same("kernel arguments", len(co) == 2 * n)
                    wE, wmu, wt, X = self.want()
                    E.eq("section of the element", [Em, mu, t], [wE, wmu, wt])
                    E.eq("local coordinates of the nodes in order", [co[i] - co[i % 2] for i in range(2 * n)], [X[i // 2][i % 2] - X[0][i % 2] for i in range(2 * n)])
                    return mat(f"K{kind}{k}", size)
                return f
            loader.STUBS[KP + full].get_binary_BDB = get
        ks = self

        class Scheme:
            def __init__(self, kind, deg):
                self.kind = kind
                E.same("degree of the quadrature", deg >= 2)

            def integrate(self, f, domain):
                E.same("quadrature of the element's shape", (self.kind == "t2") == tri)
                d = [[coerce(c) for c in p] for p in (domain if tri else domain.p)]
                want = {(0, 0), (1, 0), (0, 1)} if tri else {(-1, -1), (1, -1), (-1, 1), (1, 1)}
                E.same("reference domain", {tuple(int(c.cval()) for c in p) for p in d} == want and len(d) == len(want))
                x = npo.empty((2, 2), dtype=object)
                for k, p in enumerate(ks.pts):
                    x[0, k], x[1, k] = p
                v = f(x)
                return v[..., 0] * ks.w[0] + v[..., 1] * ks.w[1]

        class Rect:
            def __init__(self, p):
                self.p = p
        import types
        mod = loader.SHIMS["quadpy"]
        mod.c2 = types.SimpleNamespace(get_good_scheme=lambda d: Scheme("c2", d), rectangle_points=lambda x, y: Rect([(a, b) for a in x for b in y]))
        mod.t2 = types.SimpleNamespace(get_good_scheme=lambda d: Scheme("t2", d))

    def integral(self, kind):
        return mat(f"K{kind}0", 9 if self.tri else 12) * self.w[0] + mat(f"K{kind}1", 9 if self.tri else 12) * self.w[1]


def coerce(x):
    return sym.coerce(x)


def expected(ks, et, tri, area, t):
    n = 3 if tri else 4
    K = np.zeros((6 * n, 6 * n))
    if et != "membrane":
        B = ks.integral("p") * (2 * area if tri else 1)
        ix = [6 * i + c for i in range(n) for c in (2, 3, 4)]
        for a, p in enumerate(ix):
            for b, q in enumerate(ix):
                K[p, q] = K[p, q] + B[a, b]
    if et != "plate":
        B = mat("KmNone", 6) * (2 * t * area) if tri else ks.integral("m")
        ix = [6 * i + c for i in range(n) for c in ((0, 1) if tri else (0, 1, 5))]
        for a, p in enumerate(ix):
            for b, q in enumerate(ix):
                K[p, q] = K[p, q] + B[a, b]
    return K


def contracts(E):
    mm = load("hyperstatic.core.fe_model.model")
    pk = {3: load("hyperstatic.core.fe_model.element.tria"), 4: load("hyperstatic.core.fe_model.element.quad")}

    def build(E, P, et):
        m = mm.Model()
        for nm, p in zip("ABCD", P):
            m.add_node(nm, *p)
        m.add_node("Z", 99, 98, 97)
        c = {k: var(k, pos=True) for k in ("Em", "mu", "t")}
        m.add_isotropic_material("other", var("r0"), var("E0", pos=True), var("mu0"), var("al0"))
        m.add_isotropic_material("mat", var("rho"), c["Em"], c["mu"], var("al"))
        m.add_shell_section("osec", "other", var("t0", pos=True), "membrane")
        if et is None:
            m.add_shell_section("sec", "mat", c["t"])
        else:
            m.add_shell_section("sec", "mat", c["t"], et)
        m.add_shell("s", "sec", *"ABCD"[:len(P)])
        return m, c

    def check(E, m, c, P, et, T, tri):
        n = len(P)
        X = [[dot(T[r], p) for r in (0, 1)] for p in P]
        ks = Kernels(E, tri, lambda: (c["Em"], c["mu"], c["t"], X))
        d1, d2 = ([P[1][k] - P[0][k] for k in range(3)], [P[2][k] - P[0][k] for k in range(3)]) if tri else ([P[2][k] - P[0][k] for k in range(3)], [P[3][k] - P[1][k] for k in range(3)])
        area = norm(cross(d1, d2)) / 2
        K = dense(m.get_shell_K("s"))
        E.eq("stiffness composed from the kernels", K, expected(ks, et or "shell", tri, area, c["t"]))
        E.eq("rotation at every node", dense(m.get_shell_transform_matrix("s")), blockdiag(T, 2 * n))

    EN = lambda et: et or "default"
    for n in (3, 4):
        for et in (None, "plate", "membrane"):
            def general(E):
                """arbitrary nodes; the frame enters through its contract"""
                P = [V(*[f"{a}{x}" for x in "xyz"]) for a in "abcd"[:n]]
                made = []

                class Cart:
                    @staticmethod
                    def create_by_normal(O, normal, guide=(0, 0, 1), name=None):
                        made.append(Frame(O, [coerce(x) for x in normal], [coerce(x) for x in guide], mat("T", 3)))
                        return made[-1]
                old = pk[n].Cartesian
                pk[n].Cartesian = Cart
                nn = cross([P[1][k] - P[0][k] for k in range(3)], [P[2][k] - P[1][k] for k in range(3)])
                E.assume(neg(conj(*[x == 0 for x in nn])))
                try:
                    m, c = build(E, P, et)
                finally:
                    pk[n].Cartesian = old
                f = made[-1]
                E.eq("origin at the centroid of the nodes", f.origin, [sum((p[k] for p in P), S.const(0)) / n for k in range(3)])
                E.eq("axis 3 normal to the element", cross(f.n, nn), [0, 0, 0])
                r = norm(nn)
                if all((f.n[k] * r - nn[k]).isconst() for k in range(3)):
                    E.eq("axis 3 by the right-hand rule", [f.n[k] * r for k in range(3)], list(nn))
                else:
                    E.prove("axis 3 by the right-hand rule", dot(f.n, nn) > 0)
                if all(x.isconst() for x in f.guide):
                    gd = [int(x.cval()) for x in f.guide]
                    E.same("guide axis", gd in ([0, 0, 1], [0, 1, 0]))
                check(E, m, c, P, et, f.transform_matrix, n == 3)
            E.run(f"{n} nodes, any position, section type {EN(et)}", general, functions=FUNCTIONS, abstract=True, numeric=False)
        for flip in (False, True):
            for plane in ("horizontal", "vertical"):
                def flat(E):
                    u = [V(f"{a}u", f"{a}v") for a in "abcd"[:n]]
                    h = var("h")
                    A = lambda i, j, k: (u[j][0] - u[i][0]) * (u[k][1] - u[i][1]) - (u[j][1] - u[i][1]) * (u[k][0] - u[i][0])
                    E.assume(A(0, 1, 2) < 0 if flip else A(0, 1, 2) > 0)
                    P = [[p[0], p[1], h] for p in u] if plane == "horizontal" else [[p[0], h, p[1]] for p in u]
                    m, c = build(E, P, None)
                    s = -1 if flip else 1
                    if plane == "horizontal":       # x = guide x normal, guide = global Y
                        T = [[s, 0, 0], [0, 1, 0], [0, 0, s]]
                    else:                           # normal = -s Y (x to z is a turn about -Y); guide = global Z
                        T = [[s, 0, 0], [0, 0, 1], [0, -s, 0]]
                    E.eq("local frame", dense(m.get_shell_transform_matrix("s"))[:3, :3], T)
                    check(E, m, c, P, None, npo.array([[S.const(x) for x in r] for r in T], dtype=object), n == 3)
                E.run(f"{n} nodes, {plane}{', clockwise' if flip else ''}", flat, functions=FUNCTIONS, abstract=True, numeric=False)
