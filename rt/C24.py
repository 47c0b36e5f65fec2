"""random sizes of every section kind against independent formulas (torsion constants against the exact Saint-Venant series, 0.5% for plates up to 1:100)"""
from rt.common import *
from hyperstatic.core.fe_model.section.beam_section import *
from hyperstatic.core.fe_model.section.shell_section import ShellSection
from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
from hyperstatic.core.fe_model.model import Model
from math import pi, tanh
KEYS = "A As2 As3 J I22 I33 W22 W33".split()
CORNERS = [{"k": "R", "s": [400, 200]}, {"k": "R", "s": [200, 400]}, {"k": "box", "s": [400, 200, 14, 20]}, {"k": "pipe", "s": [400, 20]}, {"k": "I", "s": [400, 200, 14, 20]}, {"k": "I", "s": [1000, 300, 10, 10]},
           {"k": "circle", "s": [400]}, {"k": "general", "s": [1, 2, 3, 4, 5, 6, 7, 8]}, {"k": "general", "s": [1, 0, 0, 0, 5, 6, 0, 0]}, {"k": "general", "s": [1e-9, 0, 0, 1e-12, 1e-11, 0, 0, 1e9]}, {"k": "shell", "s": [.25]}]


def plate(h, b):
    a, t = max(h, b), min(h, b)
    s = sum(tanh(m * pi * a / 2 / t) / m ** 5 for m in range(1, 200, 2))
    return a * t ** 3 * (1 / 3 - 64 * t / pi ** 5 / a * s)


def gen(rng, i):
    k = rng.choice(["R", "box", "pipe", "I", "circle", "general", "shell"])
    u = lambda a, b: 10 ** rng.uniform(a, b)
    z = u(-2, 3)
    r = lambda a, b: z * rng.uniform(a, b)
    if k == "R":
        s = [z * u(-1, 1), z * u(-1, 1)]
    elif k == "box":
        h, b = r(.2, 5), r(.2, 5)
        s = [h, b, b * rng.uniform(.02, .45), h * rng.uniform(.02, .45)]
    elif k == "I":
        h, b = r(.2, 5), r(.2, 5)
        tf = h * rng.uniform(.02, .45)
        s = [h, b, b * rng.uniform(.02, .9), tf]
    elif k == "pipe":
        d = r(.2, 5)
        s = [d, d * rng.uniform(.01, .5)]
    elif k == "general":
        s = [r(.2, 5) for _ in KEYS]
    else:
        s = [r(.2, 5)]
    return {"k": k, "s": s, "m": [rpos(rng), rpos(rng), rng.uniform(0, .49), rng.uniform(0, 1e-4)]}


def ref(k, s):
    if k == "general":
        return dict(zip(KEYS, s)), 1e-12
    if k == "R":
        h, b = s
        return dict(A=h * b, As2=5 * h * b / 6, As3=5 * h * b / 6, J=plate(h, b), I22=h * b ** 3 / 12, I33=b * h ** 3 / 12, W22=h * b * b / 6, W33=b * h * h / 6), 1e-9
    if k == "circle":
        d, = s
        I = pi * d ** 4 / 64
        return dict(A=pi * d * d / 4, As2=.225 * pi * d * d, As3=.225 * pi * d * d, J=2 * I, I22=I, I33=I, W22=2 * I / d, W33=2 * I / d), 1e-5
    if k == "pipe":
        d, t = s
        I = pi * (d ** 4 - (d - 2 * t) ** 4) / 64
        A = pi * t * (d - t)
        return dict(A=A, As2=A / 2, As3=A / 2, J=2 * I, I22=I, I33=I, W22=2 * I / d, W33=2 * I / d), 1e-5
    h, b, tw, tf = s
    if k == "box":
        p, q = b - 2 * tw, h - 2 * tf
        I22, I33 = (h * b ** 3 - q * p ** 3) / 12, (b * h ** 3 - p * q ** 3) / 12
        am = (b - tw) * (h - tf)
        return dict(A=b * h - p * q, As2=2 * tw * h, As3=2 * tf * b, J=4 * am ** 2 / (2 * (b - tw) / tf + 2 * (h - tf) / tw), I22=I22, I33=I33, W22=2 * I22 / b, W33=2 * I33 / h), 1e-9
    q = h - 2 * tf
    I22, I33 = (2 * tf * b ** 3 + q * tw ** 3) / 12, (b * h ** 3 - (b - tw) * q ** 3) / 12
    return dict(A=2 * b * tf + q * tw, As2=tw * h, As3=5 / 3 * tf * b, J=2 * plate(b, tf) + plate(q, tw), I22=I22, I33=I33, W22=2 * I22 / b, W33=2 * I33 / h), 1e-9


def close(key, a, b, tol):
    return None if abs(a - b) <= tol * abs(b) else (key, f"{a!r} instead of {b!r} (relative {abs(a - b) / (abs(b) or 1):.2e}, allowed {tol:g})")


def check(c):
    k, s = c["k"], [float(x) for x in c["s"]]
    mt = c.get("m") or [7.85, 2e3, .3, 1e-5]
    mat = IsotropicMaterial("steel", *mt)
    if k == "shell":
        S = ShellSection("sec", mat, s[0])
        return first(expect("shell", [S.t, S.E, S.mu, S.rho, S.G], [s[0], mt[1], mt[2], mt[0], mat.G]), None if (S.name, S.material, S.ele_type) == ("sec", "steel", "shell") else ("shell-names", ""))
    if k == "I" and (max(s[1], s[3]) / min(s[1], s[3]) > 100 or max(s[2], s[0] - 2 * s[3]) / min(s[2], s[0] - 2 * s[3]) > 100) or k == "R" and max(s) / min(s) > 100 or (s[0] if k == "general" else min(s)) <= 0 or min(s) < 0:
        return None
    if k in ("box", "I") and (s[0] <= 2 * s[3] or s[1] <= (2 if k == "box" else 1) * s[2]) or k == "pipe" and s[0] < 2 * s[1]:
        return None
    want, tol = ref(k, s)
    cls = dict(R=RectangleSection, circle=CircleSection, pipe=PipeSection, box=BoxSection, I=ISection).get(k)
    S = cls("sec", mat, *s) if cls else BeamSection("sec", mat, "mine", [1., 2.], *s)
    om = IsotropicMaterial("other", mt[0] * 2, mt[1] * 3, mt[2] / 2 + .01, mt[3] / 2)       # a later section of the same kind with other sizes and another material
    cls("other", om, *[x * 2 for x in s]) if cls else BeamSection("other", om, "yours", [3.], *[x * 2 for x in s])
    for q in KEYS:
        r = close(f"{k}-{q}", getattr(S, q), want[q], 5e-3 if q == "J" and k in ("R", "I") else tol)
        if r:
            return r
    r = first(close(f"{k}-i22", S.i22, (S.I22 / S.A) ** .5, 1e-9), close(f"{k}-i33", S.i33, (S.I33 / S.A) ** .5, 1e-9),
              expect(f"{k}-material", [S.rho, S.E, S.mu, S.G, S.lamda], [mt[0], mt[1], mt[2], mat.G, mt[0] * S.A]),
              None if S.shape == (k if cls else "mine") else (f"{k}-shape", repr(S.shape)), expect(f"{k}-sizes", S.sizes, s if cls else [1, 2]),
              None if (S.name, S.material) == ("sec", "steel") else (f"{k}-names", ""))
    if r:
        return r
    M = Model()
    M.add_isotropic_material("steel", *mt)
    a = s if cls else [s[0], s[1], s[2], s[4], s[5], s[3], s[6], s[7]]
    getattr(M, "add_beam_section_" + {"R": "rectangle"}.get(k, k))("sec", "steel", *a)
    M.add_node("A", 0, 0, 0)
    M.add_node("B", 2., 0, 0)
    M.add_beam("b", "A", "B", "sec")
    K = dense(M.get_beam_K("b"))
    for q, g, w in (("A", K[0, 0], mt[1] * S.A / 2), ("J", K[3, 3], mat.G * S.J / 2), ("I22", K[4, 4], 2 * mt[1] * S.I22), ("I33", K[5, 5], 2 * mt[1] * S.I33)):
        r = close(f"{k}-model-{q}", g, w, 1e-9)
        if r:
            return r
    mine = reachable(M, BeamSection)
    if len(mine) == 1:          # where the model keeps its section is its own business
        r = first(*[close(f"{k}-model-{q}", getattr(mine[0], q), want[q], 5e-3 if q == "J" and k in ("R", "I") else tol) for q in KEYS],
                  expect(f"{k}-model-material", [mine[0].rho, mine[0].E, mine[0].mu, mine[0].G], [mt[0], mt[1], mt[2], mat.G]))
        if r:
            return r
    try:
        getattr(M, "add_beam_section_" + {"R": "rectangle"}.get(k, k))("s2", "none", *a)
        return (f"{k}-model-unknown-material", "accepted")
    except KeyError:
        return None
