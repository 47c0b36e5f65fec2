"""random space frames through the public model API, and an independent dense reference of their matrices and loads"""
from rt.beamrt import *
from hyperstatic.core.fe_model.assembly import Assembly
from hyperstatic.core.fe_model.load.pattern import LoadPattern
from hyperstatic.core.fe_model.load.loadcase import StaticCase, ModalCase, TimeHistoryCase

RELS = [[], [], [], [4], [5, 11], [3], [10, 11], [4, 5, 10, 11], [0]]
END = ["u1", "u2", "u3", "r1", "r2", "r3"]


def gen_frame(rng, nmax=5, releases=True, rotations=True):
    n = rng.randint(2, nmax)
    while True:
        pts = [[rng.randint(0, 3) + (round(rng.random(), 2) if rng.random() < .3 else 0) for _ in range(3)] for _ in range(n)]
        if all(math.dist(a, b) > .3 and (math.dist(a[:2], b[:2]) > .01 or a[:2] == b[:2]) for i, a in enumerate(pts) for b in pts[:i]):
            break
    names = rng.sample(["n%d" % i for i in range(9)] + ["A", "B"], n)
    beams = []
    for i in range(1, n):
        j = rng.randrange(i)
        e = [names[i], names[j]]
        rng.random() < .5 and e.reverse()
        beams.append(e)
    for _ in range(rng.randint(0, 2)):
        if n > 2:
            beams.append(rng.sample(names, 2))
    bn = rng.sample(["b%d" % i for i in range(20)], len(beams))
    return {"nodes": [[a, p] for a, p in zip(names, pts)],
            "beams": [{"name": b, "ends": e, "kind": rng.choice(["Beam", "SimpleBeam"]), "s": gen_sec(rng), "rel": rng.choice(RELS) if releases else [],
                       "rot": round(rng.uniform(-3, 3), 2) if rotations and rng.random() < .4 else None} for b, e in zip(bn, beams)]}


def lone(rng, v, pairs=False):
    """most often the load itself; else one component of it alone, or two that cancel"""
    q = rng.random()
    k = rng.randrange(4)
    i, j = (2 * k, 2 * k + 1) if pairs else rng.sample(range(3 * (k % 2), 3 * (k % 2) + 3), 2)
    x = v[i] or 1.5
    if q < .6:
        return v
    return [x if n == i else -x if n == j and q > .8 else x / 2 if n == j and pairs and q > .7 else 0 for n in range(len(v))]


def gen_loads(rng, c, curves=False):
    pats = []
    for k in range(rng.randint(1, 3)):
        pats.append({"name": "p%d" % k, "factor": rnum(rng, -3, 3), "nodal": {n: lone(rng, rvec(rng, 6)) for n, _ in c["nodes"] if rng.random() < .5},
                     "dist": {b["name"]: lone(rng, rvec(rng, 8), True) for b in c["beams"] if rng.random() < .4},
                     "conc": {b["name"]: lone(rng, rvec(rng, 6)) + [round(rng.random(), 3)] for b in c["beams"] if rng.random() < .4},
                     "curve": rvec(rng, rng.randint(2, 4)) if curves else None})
    return pats


def build(c):
    m = Model()
    for n, p in c["nodes"]:
        m.add_node(n, *p)
    for k, b in enumerate(c["beams"]):
        s = b["s"]
        if b["kind"] == "SimpleBeam":
            m.add_simple_beam(b["name"], *b["ends"], s["E"], s["mu"], s["A"], s["I2"], s["I3"], s["J"], s["rho"])
        else:
            m.add_isotropic_material("mat%d" % k, s["rho"], s["E"], s["mu"], 1e-5)
            m.add_beam_section_general("sec%d" % k, "mat%d" % k, s["A"], s["A"], s["A"], s["I2"], s["I3"], s["J"], 1.0, 1.0)
            m.add_beam(b["name"], *b["ends"], "sec%d" % k)
        if b.get("rot") is not None:
            if k % 2:                       # set before, to something else
                m.set_beam_rotation(b["name"], b["rot"] + .7)
            m.set_beam_rotation(b["name"], b["rot"])
        if b.get("rel"):
            if k % 2 == 0:
                m.set_beam_releases(b["name"], **{END[r % 6] + "ji"[r // 6]: True for r in b["rel"]})
            m.set_beam_releases(b["name"], **{END[r % 6] + "ij"[r // 6]: True for r in b["rel"]})
    for k, (n, v) in enumerate((c.get("mass") or {}).items()):
        if k % 2:
            m.set_nodal_mass(n, 7, 6, 5, 4, 3, 2)
        m.set_nodal_mass(n, *v)
    for k, (n, v) in enumerate((c.get("restraints") or {}).items()):
        if k % 2:
            m.set_nodal_restraint(n, *[not x for x in v])
        m.set_nodal_restraint(n, *v)
    return m


def rotate_nodes(m, rots):
    """turn node frames; node objects have no public access through the model, so they are looked up by type (False when not found)"""
    from hyperstatic.core.fe_model.node import Node
    found = {}
    for v in vars(m).values():
        if isinstance(v, dict):
            found.update({k: o for k, o in v.items() if isinstance(o, Node)})
    if any(n not in found for n in rots):
        return False
    for n, a in rots.items():
        found[n].rotate_about_1axis(a[0])
        found[n].rotate_about_2axis(a[1])
        found[n].rotate_about_3axis(a[2])
    return True


def patterns(c):
    out = []
    for p in c.get("pats", []):
        q = LoadPattern(p["name"])
        for n, v in p["nodal"].items():
            q.set_nodal_load(n, *v)
        for n, v in p["dist"].items():
            q.set_beam_load_dist(n, **dict(zip(["pi", "qi2", "qi3", "ti", "pj", "qj2", "qj3", "tj"], v)))
        for n, v in p["conc"].items():
            q.set_beam_load_conc(n, *v)
        out.append(q)
    return out


NAMES = ["case", "case", "Case.1 A", "LC1.d", "dead+0.5 Live", "工况 1"]


def cname(c):
    return c.get("case") or "case"


def near(name):
    """another case name that differs from this one only a little: in letter case, or after the first dot"""
    return name.swapcase() if name.swapcase() != name else name + ".x"


def case(c, kind=StaticCase, *a):
    lc = kind(cname(c), *a)
    for p, q in zip(c.get("pats", []), patterns(c)):
        if kind is TimeHistoryCase:
            lc.add_pattern(q, p["factor"], np.array([list(range(len(p["curve"]))), p["curve"]], float))
        else:
            lc.add_pattern(q, p["factor"])
    for n, v in (c.get("case_restraints") or {}).items():
        lc.set_nodal_restraint(n, *v)
    return lc


# ---------------------------------------------------------------- reference
def bcase(c, b):
    P = dict(c["nodes"])
    return {"kind": b["kind"], "p": P[b["ends"][0]], "q": P[b["ends"][1]], "s": b["s"]}


def frame_of(c, b):
    """local axes by the documented rule (C05), independent of the code"""
    k = bcase(c, b)
    p, q = np.array(k["p"], float), np.array(k["q"], float)
    x = (q - p) / np.linalg.norm(q - p)
    if np.hypot(*(q - p)[:2]) < 1e-9:
        y = np.array([1., 0, 0])
        z = np.cross(x, y)
    else:
        z = np.cross(x, [0, 0, 1.])
        z /= np.linalg.norm(z)
        y = np.cross(z, x)
    if b.get("rot") is not None:
        R = rot(x, b["rot"])
        y, z = R @ y, R @ z
    return blockdiag(np.array([x, y, z]), 4)


def schur(K, rel, f=None):
    """static condensation over the released dofs; with f also the condensed load"""
    keep = [i for i in range(12) if i not in rel]
    W, w = np.zeros((12, 12)), np.zeros(12)
    if not rel:
        return K.copy(), (None if f is None else np.array(f, float))
    A = np.linalg.solve(K[np.ix_(rel, rel)], K[np.ix_(rel, keep)])
    W[np.ix_(keep, keep)] = K[np.ix_(keep, keep)] - K[np.ix_(keep, rel)] @ A
    if f is not None:
        f = np.array(f, float)
        w[keep] = f[keep] - A.T @ f[rel]
    return W, (None if f is None else w)


def stiffer(c):
    """the same structure three times as stiff and, where there are masses, with other masses"""
    return dict(c, beams=[dict(b, s=dict(b["s"], E=b["s"]["E"] * 3)) for b in c["beams"]], mass={n: [2 * x for x in v] for n, v in (c.get("mass") or {}).items()})


def hids(c):
    return {n: i for i, (n, _) in enumerate(c["nodes"])}


def dofs(c, b):
    h = hids(c)
    return [6 * h[e] + k for e in b["ends"] for k in range(6)]


def ref_K(c):
    n = 6 * len(c["nodes"])
    K = np.zeros((n, n))
    for b in c["beams"]:
        T = frame_of(c, b)
        Ke, _ = schur(stiff(bcase(c, b)), b.get("rel") or [])
        d = dofs(c, b)
        K[np.ix_(d, d)] += T.T @ Ke @ T
    return K


def abs_K(c):
    """the same sum with the sizes of all terms: the scale of the rounding errors, entry by entry"""
    n = 6 * len(c["nodes"])
    S = np.zeros((n, n))
    for b in c["beams"]:
        T = np.abs(frame_of(c, b))
        Ke = stiff(bcase(c, b))         # before condensation: what the released terms cancel against
        d = dofs(c, b)
        S[np.ix_(d, d)] += T.T @ np.abs(Ke) @ T
    return S


def ref_M(c):
    """lumped masses of a frame without released ends"""
    h = hids(c)
    n = 6 * len(c["nodes"])
    M = np.zeros((n, n))
    for k, v in (c.get("mass") or {}).items():
        for i in range(6):
            M[6 * h[k] + i, 6 * h[k] + i] += v[i]
    for b in c["beams"]:
        s, T, d = b["s"], frame_of(c, b), dofs(c, b)
        D = np.kron(np.eye(2), np.diag([s["rho"] * s["A"] * length(bcase(c, b)) / 2.] * 3 + [1e-12] * 3))
        M[np.ix_(d, d)] += T.T @ D @ T
    return M


def eq_load(c, b, step=None):
    L = length(bcase(c, b))
    t = np.zeros(12)
    for p in c.get("pats", []):
        w = np.zeros(12)
        if b["name"] in p["dist"]:
            w = w + np.array(spec.distributed([float(x) for x in p["dist"][b["name"]]], L), float)
        if b["name"] in p["conc"]:
            v = [float(x) for x in p["conc"][b["name"]]]
            w = w + np.array(spec.concentrated(v[:3], v[3:6], v[6], L), float)
        t += float(p["factor"]) * w * (1.0 if step is None else float(p["curve"][step]))
    return t


def ref_f(c, step=None):
    h = hids(c)
    f = np.zeros(6 * len(c["nodes"]))
    for p in c.get("pats", []):
        for n, v in p["nodal"].items():
            f[6 * h[n]:6 * h[n] + 6] += float(p["factor"]) * np.array(v, float) * (1.0 if step is None else float(p["curve"][step]))
    for b in c["beams"]:
        _, w = schur(stiff(bcase(c, b)), b.get("rel") or [], eq_load(c, b, step))
        np.add.at(f, dofs(c, b), frame_of(c, b).T @ w)
    return f


def bad(c):
    return any(degenerate(bcase(c, b)) for b in c["beams"])


SEC = dict(E=2, mu=0.25, A=1, I2=2, I3=3, J=4, rho=5)
BASE = {"nodes": [["A", [0, 0, 0]], ["B", [2, 0, 0]], ["C", [2, 0, 3]]],
        "beams": [{"name": "x", "ends": ["B", "A"], "kind": "SimpleBeam", "s": SEC, "rel": [], "rot": None}, {"name": "y", "ends": ["B", "C"], "kind": "Beam", "s": dict(SEC, E=7, I2=1), "rel": [], "rot": None}]}


# many nodes
_PTS = [[k % 3 * 2, k // 3 % 3 * 2, k // 9 * 3] for k in range(24)]
TOWER = {"nodes": [["n%d" % k, p] for k, p in enumerate(_PTS)],
         "beams": [{"name": "b%d" % i, "ends": ["n%d" % e[i % 2], "n%d" % e[1 - i % 2]], "kind": "SimpleBeam", "s": SEC, "rel": [], "rot": None} for i, e in
                   enumerate((j, k) for k in range(24) for j in range(k) if sum(abs(x - y) for x, y in zip(_PTS[j], _PTS[k])) <= 3 and sum(x != y for x, y in zip(_PTS[j], _PTS[k])) == 1)],
         "pats": [{"name": "p0", "factor": 1, "nodal": {"n17": [1, 2, 3, 4, 5, 6], "n4": [0, -1, 0, 0, 0, 0]}, "dist": {"b7": [1, 2, 3, 4, 5, 6, 7, 8]}, "conc": {}, "curve": None}]}


def large(c, n=5600):
    """the frame c behind n unconnected nodes: degrees of freedom far beyond any small integer type. Returns the model's case and the first degree of freedom of c."""
    return dict(c, nodes=[["x%d" % i, [-10. - i, 0, 0]] for i in range(n)] + [list(x) for x in c["nodes"]]), 6 * n


def tail(A, o):
    """(the part of the sparse matrix or column from degree of freedom o on, largest entry elsewhere)"""
    A = A.tocoo()
    col = A.shape[1] == 1
    inside = (A.row >= o) & (col | (A.col >= o))
    W = np.zeros((A.shape[0] - o, 1 if col else A.shape[1] - o))
    np.add.at(W, (A.row[inside] - o, A.col[inside] - (0 if col else o)), A.data[inside])
    return W, float(np.max(np.abs(A.data[~inside]), initial=0))
