"""random beams (vertical, near vertical, axis parallel, mixed int/float) with 0-3 rotation settings"""
from rt.common import *
from hyperstatic.core.fe_model.node import Node
from hyperstatic.core.fe_model.element.line.beam import Beam
from hyperstatic.core.fe_model.element.line.simple_beam import SimpleBeam
CORNERS = [{"kind": k, "p": p, "q": q, "rot": r} for k in ("Beam", "SimpleBeam") for p, q in
           (([0, 0, 0], [0, 0, 3]), ([0, 0, 3], [0, 0, 0]), ([0, 0, 0], [1, 0, 0]), ([0, 0, 0], [0, -2, 0]), ([1, 1, 1], [2, 2, 2]), ([1, 2, 3], [1.5, 2, 3]))
           for r in ([], [0.3], [0.5, 0.2])] + [{"kind": k, "p": [4e5, -3e5, 10], "q": [4e5 + 3, -3e5 + 4, 10], "rot": []} for k in ("Beam", "SimpleBeam")]


def gen(rng, i):
    p, q = rvec(rng), rvec(rng)
    m = rng.random()
    if m < 0.2:
        q = [p[0], p[1], q[2]]
    elif m < 0.4:
        k = rng.randrange(3)
        q = [q[j] if j == k else p[j] for j in range(3)]
    if rng.random() < .2:           # far from the origin
        o = [rng.choice([0, 1e3, -1e5, 2.5e6]) for _ in range(3)]
        p, q = [a + b for a, b in zip(p, o)], [a + b for a, b in zip(q, o)]
    return {"kind": rng.choice(["Beam", "SimpleBeam"]), "p": p, "q": q, "rot": turns(rng)}


def turns(rng):
    t = [rnum(rng) for _ in range(rng.randint(0, 3))]
    if rng.random() < .35:          # settings that differ by fractions and multiples of the full turn, or by a little
        a = rnum(rng)
        t += [a] + [a + k for k in rng.sample([math.pi / 2, math.pi, -math.pi, 2 * math.pi, -4 * math.pi, 1e-5, -3e-7], 2)]
    return t


def model(c):
    from hyperstatic.core.fe_model.model import Model
    m = Model()
    m.add_node("I", *c["p"])
    m.add_node("J", *c["q"])
    m.add_isotropic_material("m", 1., 1., .3, 1.)
    m.add_beam_section_general("s", "m", 1., 1., 1., 1., 1., 1., 1., 1.)
    m.add_beam("B", "I", "J", "s") if c["kind"] == "Beam" else m.add_simple_beam("B", "I", "J", 1., .3, 1., 1., 1., 1., 1.)
    for th in c["rot"]:
        m.set_beam_rotation("B", th)
    return m


class Sec:
    E = A = I22 = I33 = J = rho = G = 1.0
    mu = 0.3


def check(c):
    p, q = np.array(c["p"], float), np.array(c["q"], float)
    d = q - p
    L = np.linalg.norm(d)
    h = np.hypot(d[0], d[1])
    if L < 1e-6 or (0 < h < 1e-7) or (h and h / L < 1e-6):
        return None
    a, b = Node("I", *c["p"]), Node("J", *c["q"])
    bm = Beam("B1", a, b, Sec()) if c["kind"] == "Beam" else SimpleBeam("B1", a, b, 1., .3, 1., 1., 1., 1., 1.)
    T = np.array(bm.local_csys.transform_matrix, float)
    r = first(expect("length", bm.length, L), expect("x-axis", T[0], d / L), frame_ok(T),
              expect("origin", bm.local_csys.origin, (p + q) / 2), expect("start", bm.start, p), expect("end", bm.end, q),
              expect("T12", dense(bm.transform_matrix), blockdiag(T, 4)),
              None if list(bm.get_node_names()) == ["I", "J"] else ("nodes", str(bm.get_node_names())))
    if r:
        return r
    if h < 1e-9:
        r = expect("vertical-y", T[1], [1, 0, 0], atol=1e-7)
    else:
        r = first(expect("z-horizontal", T[2][2], 0, atol=1e-7), None if T[1][2] > 0 else ("y-up", "local y points down"))
    if r:
        return r
    for th in c["rot"]:
        bm.rotation = th
        R = rot(T[0], th)
        r = first(expect("rotation", bm.local_csys.transform_matrix, T @ R.T, atol=1e-8), expect("rotation-value", bm.rotation, th),
                  expect("T12-rotated", dense(bm.transform_matrix), blockdiag(T @ R.T, 4), atol=1e-8), expect("length", bm.length, L))
        if r:
            return r
    m = model(c)
    return first(expect("model-T12", dense(m.get_beam_transform_matrix("B")), dense(bm.transform_matrix), atol=1e-8), expect("model-length", m.get_beam_length("B"), L))
