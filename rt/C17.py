"""random space frames (permuted names, rotations, releases, optional shells): assembled stiffness against an independent dense assembly; symmetry, rigid-body motions, non-negative energy"""
from rt.frame import *

SHELL = [{"name": "s", "nodes": ["A", "B", "C"]}]
Q = {"nodes": [["D", [0, 0, 0]], ["A", [2, 0, 0]], ["E", [5, 5, 5]], ["C", [0, 1.5, 0]], ["B", [2, 1, 0]]], "beams": [dict(BASE["beams"][0], ends=["E", "A"])],
     "shells": [{"name": "q", "nodes": ["D", "A", "B", "C"]}]}
CORNERS = [BASE, dict(BASE, beams=[dict(BASE["beams"][0], rel=[4, 5]), dict(BASE["beams"][1], rel=[10])]), dict(BASE, shells=SHELL), dict(BASE, beams=[], shells=SHELL), Q,
           dict(Q, shells=Q["shells"] + [{"name": "t", "nodes": ["B", "E", "C"]}])]
WIRE = dict(E=2e5, mu=.3, A=1e-2, I2=3e-12, I3=2e-12, J=4e-12, rho=1)
CORNERS += [{"nodes": [["A", [0, 0, 0]], ["B", [4, 0, 0]], ["C", [4, 3, 0]], ["D", [4, 3, 2]]], "beams": [{"name": "b%d" % i, "ends": e, "kind": k, "s": WIRE, "rel": r, "rot": None} for i, (e, r) in enumerate(zip(("AB", "CB", "CD"), ([], [5], [])))]} for k in ("Beam", "SimpleBeam")]

CORNERS += [{"nodes": c["nodes"], "beams": [dict(b, s=dict(b["s"], E=b["s"]["E"] * 1e-8)) for b in c["beams"]]} for c in CORNERS[-2:] + CORNERS[:2]]       # very soft
CORNERS += [dict(BASE, large=True), TOWER]


def gen(rng, i):
    c = gen_frame(rng)
    if len(c["nodes"]) >= 3 and rng.random() < .15:
        c["shells"] = [{"name": "s", "nodes": rng.sample([n for n, _ in c["nodes"]], 3)}]
    elif rng.random() < .15:            # members along the global axes with very unequal stiffnesses
        x = [0.0, 0.0, 0.0]
        for k, p in enumerate(c["nodes"]):
            p[1] = list(x)
            x[rng.randrange(3)] += rpos(rng)
        ns = [n for n, _ in c["nodes"]]
        c["beams"] = [dict(b, ends=list(e), rot=None, s=dict(b["s"], **{q: b["s"][q] * 10.0 ** -rng.randint(0, 9) for q in ("I2", "I3", "J")})) for b, e in zip(c["beams"], zip(ns, ns[1:]))]
    return c


def axial(c):
    """all members along global axes: no entry of the stiffness mixes members' axial and bending stiffness"""
    X = dict(c["nodes"])
    return all(sum(x != y for x, y in zip(*(X[n] for n in b["ends"]))) == 1 and not b.get("rot") for b in c["beams"])


def check(c):
    if c.get("large"):
        q, o = large(c)
        K, rest = tail(Assembly(build(q), []).assemble_K(), o)
        return expect("K-large", K, ref_K(c), rtol=1e-9) or expect("K-large-elsewhere", rest, 0)
    if bad(c):
        return None
    m = build(c)
    W = ref_K(c)
    h = hids(c)
    sh = []
    if c.get("shells"):
        m.add_isotropic_material("sm", 1, 3.0, .25, 1e-5)
        m.add_shell_section("ss", "sm", .1)
        X = dict(c["nodes"])
        for s in c["shells"]:
            P = [np.array(X[x], float) for x in s["nodes"][:3]]
            if np.linalg.norm(np.cross(P[1] - P[0], P[2] - P[0])) < 1e-6 * np.linalg.norm(P[1] - P[0]) * np.linalg.norm(P[2] - P[0]):
                return None                     # three nodes on a line: not a shell
            try:
                m.add_shell(s["name"], "ss", *s["nodes"])
                k, t = np.asarray(dense(m.get_shell_K(s["name"]))), np.asarray(dense(m.get_shell_transform_matrix(s["name"])))
            except Exception:
                return None                     # degenerate corners
            d = [6 * h[x] + i for x in s["nodes"] for i in range(6)]
            W[np.ix_(d, d)] += t.T @ k @ t
    a = Assembly(m, [])
    K = np.asarray(dense(a.assemble_K()))
    r = expect("K", K, W, rtol=1e-9)
    if not r and axial(c) and not c.get("shells"):
        S = abs_K(c)
        big = (np.abs(W) > 1e-13 * np.max(S, initial=0)) & (np.abs(W) > 1e-9 * S)
        q = np.abs(K - W) > 1e-6 * np.abs(W) + 1e-15 * np.max(S, initial=0) + 1e-11 * S
        if np.any(q & big):
            r = ("K-entries", f"entries {np.argwhere(q & big)[:3].tolist()}: {K[q & big][:3]} expected {W[q & big][:3]}")
    if r or c.get("shells"):
        return r
    n = len(c["nodes"])
    X = [np.array(p, float) for _, p in c["nodes"]]
    u = []
    for k in range(3):
        e = np.eye(3)[k]
        u.append(np.concatenate([np.r_[e, 0, 0, 0] for _ in X]))
        u.append(np.concatenate([np.r_[np.cross(e, x), e] for x in X]))
    s = np.max(np.abs(K)) or 1
    if np.max(np.abs(K - K.T)) > 1e-9 * s:
        return "symmetric", "stiffness not symmetric"
    for k, v in enumerate(u):
        if np.max(np.abs(K @ v)) > 1e-7 * s * max(1, np.max(np.abs(v))):
            return "rigid-motion", f"rigid motion {k} produces forces {short(K @ v)}"
    if np.linalg.eigvalsh((K + K.T) / 2)[0] < -1e-8 * s:
        return "energy", "negative strain energy"
    K2 = np.asarray(dense(a.assemble_K()))
    return expect("repeatable", K2, K)
