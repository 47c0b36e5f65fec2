"""Beam sections: section constants follow from the given sizes, for every section kind."""
from vc.api import *

BS = "core.fe_model.section.beam_section."
FUNCTIONS = [BS + k for k in ("BeamSection.__init__", "BeamSection properties", "RectangleSection.__init__", "CircleSection.__init__", "PipeSection.__init__", "BoxSection.__init__", "ISection.__init__")] + \
    ["core.fe_model.section.shell_section.ShellSection", "core.fe_model.model.Model.add_beam_section_*"]
ASSUME = ["tanh enters as an uninterpreted function with 0 < tanh x < 1 for x > 0; the accuracy of the truncated torsion series (relative to Saint-Venant's exact constant) is a bounded run-time contract",
          "geometrically possible sizes: all positive, wall thicknesses less than half the outer size"]
RT_N = {"quick": 150, "thorough": 3000}
EPS = S.const(1) / 100000


class Mat:
    name = "steel"

    def __init__(self):
        self.rho, self.E, self.mu, self.G, self.a = (var("m_" + k) for k in ("rho", "E", "mu", "G", "a"))


def contracts(E):
    m = load("hyperstatic.core.fe_model.section.beam_section")

    def common(E, s, mt, shape, sizes, A, I22, I33, h, b, As2, As3, rel_=None):
        """rel_ None: exact; else a positive quantity: value/unit must equal the constant up to 1e-5"""
        def eq(n, got, want):
            if rel_ is None:
                E.eq(n, got, want)
            else:
                E.prove(n + " (to 1e-5)", conj(got - want <= EPS * want, want - got <= EPS * want))
        eq("area", s.A, A)
        eq("I22", s.I22, I22)
        eq("I33", s.I33, I33)
        eq("W22 = I22 / (b/2)", s.W22, I22 * 2 / b)
        eq("W33 = I33 / (h/2)", s.W33, I33 * 2 / h)
        eq("shear area 2", s.As2, As2)
        eq("shear area 3", s.As3, As3)
        E.eq("radius of gyration i22", s.i22 * s.i22 * s.A, s.I22)
        E.eq("radius of gyration i33", s.i33 * s.i33 * s.A, s.I33)
        E.prove("radii are not negative", conj(0 <= s.i22, 0 <= s.i33))
        E.prove("constants are positive", conj(0 < s.A, 0 < s.I22, 0 < s.I33, 0 < s.W22, 0 < s.W33))
        E.same("sizes are a tuple", isinstance(s.sizes, tuple))
        E.eq("sizes", list(s.sizes), sizes)
        E.same("shape", s.shape == shape)
        E.same("names", (s.name, s.material) == ("sec", "steel"))
        E.eq("material constants", [s.rho, s.E, s.mu, s.G], [mt.rho, mt.E, mt.mu, mt.G])
        E.eq("mass per length", s.lamda, mt.rho * s.A)

    def series(a, t, n):
        """torsion of a plate a x t: a t^3 (1/3 - 64 t / (p^5 a) sum_{odd k < n} tanh(k p a / 2t) / k^5)"""
        p = S.const(3141592) / 1000000
        q = S.const(0)
        for k in range(1, n, 2):
            q = q + fn("tanh", S.const(k) * p * a / 2 / t) / S.const(k) ** 5
        return a * t ** 3 * (S.const(1) / 3 - 64 * t / (p ** 5 * a) * q)

    h, b = V("h", "b", pos=True)

    def rect(E):
        mt = Mat()
        s = m.RectangleSection("sec", mt, h, b)
        As = h * b * 5 / 6
        common(E, s, mt, "R", [h, b], b * h, h * b ** 3 / 12, b * h ** 3 / 12, h, b, As, As)
        E.eq("torsion constant: Saint-Venant series, 30 terms", s.J, series(h, b, 60))
    E.run("rectangle", rect, case_of={"k": "R", "s": [h, b]}, functions=FUNCTIONS, hints=[dict(h=2, b=1), dict(h=1, b=3)])

    tw, tf, gb, gh = V("tw", "tf", "gb", "gh", pos=True)
    B, H = 2 * tw + gb, 2 * tf + gh

    def box(E):
        mt = Mat()
        s = m.BoxSection("sec", mt, H, B, tw, tf)
        common(E, s, mt, "box", [H, B, tw, tf], 2 * tf * B + 2 * tw * gh, (H * B ** 3 - gh * gb ** 3) / 12, (B * H ** 3 - gb * gh ** 3) / 12, H, B, 2 * tw * H, 2 * tf * B)
        a = (B - tw) * (H - tf)
        E.eq("torsion constant (Bredt): 4 a^2 / contour integral of ds/t", s.J * (2 * (B - tw) / tf + 2 * (H - tf) / tw), 4 * a * a)
        E.prove("torsion constant is positive", 0 < s.J)
    E.run("box", box, case_of={"k": "box", "s": [H, B, tw, tf]}, functions=FUNCTIONS, hints=[dict(tw=1, tf=2, gb=5, gh=7)])

    Bi = tw + gb

    def isec(E):
        mt = Mat()
        s = m.ISection("sec", mt, H, Bi, tw, tf)
        common(E, s, mt, "I", [H, Bi, tw, tf], 2 * tf * Bi + tw * gh, (2 * tf * Bi ** 3 + gh * tw ** 3) / 12, (Bi * H ** 3 - gb * gh ** 3) / 12, H, Bi, tw * H, tf * Bi * 5 / 3)
        E.eq("torsion constant: sum of the plates' series, 15 terms", s.J, 2 * series(Bi, tf, 30) + series(gh, tw, 30))
    E.run("I section", isec, case_of={"k": "I", "s": [H, Bi, tw, tf]}, functions=FUNCTIONS, hints=[dict(tw=1, tf=2, gb=5, gh=7), dict(tw=2, tf=1, gb=20, gh=40)])

    d = var("d", pos=True)

    def circle(E):
        mt = Mat()
        s = m.CircleSection("sec", mt, d)
        A, I = PI / 4 * d ** 2, PI / 64 * d ** 4
        common(E, s, mt, "circle", [d], A, I, I, d, d, A * 9 / 10, A * 9 / 10, True)
        E.prove("torsion constant (to 1e-5)", conj(s.J - 2 * I <= EPS * 2 * I, 2 * I - s.J <= EPS * 2 * I))
        E.eq("polar sum", s.J, s.I22 + s.I33)
    E.run("circle", circle, case_of={"k": "circle", "s": [d]}, functions=FUNCTIONS, hints=[dict(d=2)])

    t, g = V("t", "g", pos=True)
    D = 2 * t + g

    def pipe(E):
        mt = Mat()
        s = m.PipeSection("sec", mt, D, t)
        A, I = PI * t * (t + g), PI / 64 * (D ** 4 - g ** 4)
        common(E, s, mt, "pipe", [D, t], A, I, I, D, D, A / 2, A / 2, True)
        E.prove("torsion constant (to 1e-5)", conj(s.J - 2 * I <= EPS * 2 * I, 2 * I - s.J <= EPS * 2 * I))
        E.eq("polar sum", s.J, s.I22 + s.I33)
    E.run("pipe", pipe, case_of={"k": "pipe", "s": [D, t]}, functions=FUNCTIONS, hints=[dict(t=1, g=5)])

    def general(E):
        mt = Mat()
        ks = "A As2 As3 J I22 I33 W22 W33".split()
        v = [var("p_" + k, pos=True) for k in ks]
        sz = V("s0", "s1")
        s = m.BeamSection("sec", mt, "mine", sz, *v)
        E.eq("constants as given", [getattr(s, k) for k in ks], v)
        E.same("shape as given", s.shape == "mine")
        E.eq("sizes as given", list(s.sizes), sz)
        E.eq("radii", [s.i22 ** 2 * v[0], s.i33 ** 2 * v[0]], [v[4], v[5]])
        E.prove("radii are not negative", conj(0 <= s.i22, 0 <= s.i33))
        E.eq("material constants", [s.rho, s.E, s.mu, s.G, s.lamda], [mt.rho, mt.E, mt.mu, mt.G, mt.rho * v[0]])
        E.same("names", (s.name, s.material) == ("sec", "steel"))
    E.run("general", general, functions=FUNCTIONS, abstract=True)

    def shell(E):
        mt, t = Mat(), var("t", pos=True)
        ms = load("hyperstatic.core.fe_model.section.shell_section")
        for et in (None, "plate", "membrane", "shell"):
            s = ms.ShellSection("sec", mt, t) if et is None else ms.ShellSection("sec", mt, t, et)
            E.same("names", (s.name, s.material, s.ele_type) == ("sec", "steel", et or "shell"))
            E.eq("constants", [s.t, s.rho, s.E, s.mu, s.G], [t, mt.rho, mt.E, mt.mu, mt.G])
    E.run("shell section", shell, functions=FUNCTIONS, abstract=True)

    def model(E):
        """sections defined through the model: the stiffness of a beam with that section"""
        mm = load("hyperstatic.core.fe_model.model")
        x = {k: var(k, pos=True) for k in "h b d t A As2 As3 I22 I33 J W22 W33 rho Em L".split()}
        E.assume(x["L"] > 1)
        x.update(H=H, B=B, tw=tw, tf=tf)
        mu, al = V("mu", "al", nonneg=True)
        mt = load("hyperstatic.core.fe_model.material.isotropy").IsotropicMaterial("steel", x["rho"], x["Em"], mu, al)
        for kind, args, cls in (("rectangle", "h b", m.RectangleSection), ("I", "H B tw tf", m.ISection), ("box", "H B tw tf", m.BoxSection), ("circle", "d", m.CircleSection), ("pipe", "d t", m.PipeSection), ("general", "A As2 As3 I22 I33 J W22 W33", None)):
            M = mm.Model()
            M.add_isotropic_material("steel", x["rho"], x["Em"], mu, al)
            v = [x[k] for k in args.split()]
            getattr(M, "add_beam_section_" + kind)("sec", "steel", *v)
            M.add_node("A", 0, 0, 0)
            M.add_node("B", x["L"], 0, 0)
            M.add_beam("b", "A", "B", "sec")
            sec = cls("sec", mt, *v) if cls else m.BeamSection("sec", mt, "general", [], x["A"], x["As2"], x["As3"], x["J"], x["I22"], x["I33"], x["W22"], x["W33"])
            K = dense(M.get_beam_K("b"))
            G, L = x["Em"] / 2 / (1 + mu), x["L"]
            E.eq(f"{kind}: axial, torsional and bending stiffness", [K[0, 0], K[3, 3], K[4, 4], K[5, 5]],
                 [x["Em"] * sec.A / L, G * sec.J / L, 4 * x["Em"] * sec.I22 / L, 4 * x["Em"] * sec.I33 / L])
            Mm = dense(M.get_beam_M("b"))
            E.eq(f"{kind}: mass", Mm[0, 0] + Mm[6, 6] + Mm[0, 6] + Mm[6, 0], x["rho"] * sec.A * L)
            E.same(f"{kind}: unknown material is rejected", raises(getattr(M, "add_beam_section_" + kind), "s2", "nope", *v)[0])
    E.run("through the model", model, functions=FUNCTIONS, abstract=True)
