from rt.common import *
import spec
from hyperstatic.core.fe_model.node import Node
from hyperstatic.core.fe_model.model import Model
from hyperstatic.core.fe_model.element.line.beam import Beam
from hyperstatic.core.fe_model.element.line.simple_beam import SimpleBeam


class Sec:
    pass


def gen_sec(rng):
    return dict(E=rpos(rng, 1, 300), mu=round(rng.uniform(0, 0.49), 3), A=rpos(rng, .1, 9), I2=rpos(rng, .1, 9), I3=rpos(rng, .1, 9), J=rpos(rng, .1, 9), rho=rpos(rng, .1, 9))


def gen_ends(rng):
    while True:
        p, q = rvec(rng), rvec(rng)
        m = rng.random()
        if m < 0.15:
            q = [p[0], p[1], q[2]]
        elif m < 0.3:
            k = rng.randrange(3)
            q = [q[j] if j == k else p[j] for j in range(3)]
        if math.dist(p, q) > 0.3 and (math.dist(p[:2], q[:2]) > 0.01 or p[:2] == q[:2]):
            if rng.random() < .25:
                s = rng.choice([.01, .1, 10, 100])
                q = [a if a == b else a + s * (b - a) for a, b in zip(p, q)]
            return p, q


def make(c):
    """the beam of a case, through the public model API"""
    s = c["s"]
    m = Model()
    m.add_node("I", *c["p"])
    m.add_node("J", *c["q"])
    if c["kind"] == "SimpleBeam":
        m.add_simple_beam("B", "I", "J", s["E"], s["mu"], s["A"], s["I2"], s["I3"], s["J"], s["rho"])
    else:
        m.add_isotropic_material("mat", s["rho"], s["E"], s["mu"], 1e-5)
        m.add_beam_section_general("sec", "mat", s["A"], s["A"], s["A"], s["I2"], s["I3"], s["J"], 1.0, 1.0)
        m.add_beam("B", "I", "J", "sec")
    return m


def obj(c):
    s = c["s"]
    a, b = Node("I", *c["p"]), Node("J", *c["q"])
    if c["kind"] == "SimpleBeam":
        return SimpleBeam("B", a, b, s["E"], s["mu"], s["A"], s["I2"], s["I3"], s["J"], s["rho"])
    S = Sec()
    S.E, S.mu, S.A, S.I22, S.I33, S.J, S.rho = s["E"], s["mu"], s["A"], s["I2"], s["I3"], s["J"], s["rho"]
    S.G = s["E"] / 2 / (1 + s["mu"])
    return Beam("B", a, b, S)


def degenerate(c):
    """outside the stated domain (too short, or inside the vertical tolerance band)"""
    p, q = np.array(c["p"], float), np.array(c["q"], float)
    h, L = np.hypot(*(q - p)[:2]), np.linalg.norm(q - p)
    s = c.get("s") or {}
    if any(not s.get(k, 1) > 0 for k in ("E", "A", "I2", "I3", "J", "rho")) or not s.get("mu", 0) > -1:
        return True
    return L < 1e-6 or (0 < h < 1e-7) or (h and h / L < 1e-6)


def length(c):
    return float(np.linalg.norm(np.array(c["q"], float) - np.array(c["p"], float)))


def full(d, n=12):
    m = np.zeros((n, n))
    for (i, j), v in d.items():
        m[i, j] = v
    return m


def stiff(c):
    s = c["s"]
    return full(spec.stiffness(float(s["E"]), s["E"] / 2 / (1 + s["mu"]), float(s["A"]), float(s["I2"]), float(s["I3"]), float(s["J"]), length(c)))
