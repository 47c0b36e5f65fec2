"""random member with releases and masses in a model with other members: every query of Model and Assembly against the independent beam specification"""
from rt.beamrt import *
from hyperstatic.core.fe_model.assembly import Assembly
from hyperstatic.core.fe_model.load.loadcase import StaticCase

CORNERS = [{"kind": k, "p": [0, 0, 0], "q": q, "s": dict(E=2, mu=0.25, A=1, I2=2, I3=3, J=4, rho=5), "mass": [1, 2, 3, 4, 5, 6], "rel": r, "r": 0.5, "first": f}
           for k in ("Beam", "SimpleBeam") for q in ([2, 0, 0], [0, 0, 3], [1, 2, 2]) for r in ([], [4], [10, 11], [0], [7]) for f in (0, 2)]


def gen(rng, i):
    p, q = gen_ends(rng)
    return {"kind": rng.choice(["Beam", "SimpleBeam"]), "p": p, "q": q, "s": gen_sec(rng), "mass": rvec(rng, 6, lo=0), "rel": rng.choice([[], [5], [0], [1, 9], [4, 11], [3], [10, 11], [4, 5, 10, 11], [6], [7], [8], [2], [2, 7]]), "r": round(rng.random(), 3), "first": rng.randint(0, 3)}


def check(c):
    if degenerate(c):
        return None
    s = c["s"]
    m = Model()
    for k in range(c["first"]):
        m.add_node(f"N{k}", 50 + k, 1, 2)
    m.add_node("J", *c["q"])
    m.add_node("I", *c["p"])
    hJ, hI = c["first"], c["first"] + 1
    if c["kind"] == "SimpleBeam":
        m.add_simple_beam("B", "I", "J", s["E"], s["mu"], s["A"], s["I2"], s["I3"], s["J"], s["rho"])
    else:
        m.add_isotropic_material("mat", s["rho"], s["E"], s["mu"], 1e-5)
        m.add_beam_section_general("sec", "mat", s["A"], 11., 12., s["I2"], s["I3"], s["J"], 13., 14.)
        m.add_beam("B", "I", "J", "sec")
    m.set_nodal_mass("I", *c["mass"])
    if c["kind"] == "SimpleBeam":
        m.add_simple_beam("Z", "J", "I", 1, 0, 1, 1, 1, 1, 1)
    else:
        m.add_beam("Z", "J", "I", "sec")
    a = Assembly(m, [StaticCase("c")])
    T = np.asarray(dense(m.get_beam_transform_matrix("B")))
    K = stiff(c)
    d = (np.array(c["q"], float) - np.array(c["p"], float))
    r = first(expect("node-location", m.get_node_location("I"), c["p"], rtol=1e-15), expect("node-location", m.get_node_location("J"), c["q"], rtol=1e-15),
              expect("mass", m.get_nodal_mass("I"), c["mass"]), expect("mass-other", m.get_nodal_mass("J"), [0] * 6),
              expect("node-M", dense(m.get_node_M("I")), np.diag([float(x) for x in c["mass"]])),
              expect("node-transform", dense(m.get_node_transform_matrix("I")), np.eye(6)),
              expect("node-transform-assembly", dense(a.get_node_transform_matrix("I")), np.eye(6)),
              expect("location", m.get_beam_location("B"), [c["p"], c["q"]], rtol=1e-15), expect("length", m.get_beam_length("B"), length(c)),
              expect("axis", T[0, :3] * length(c), d, atol=1e-7), expect("blocks", T, blockdiag(T[:3, :3], 4)), frame_ok(T[:3, :3]),
              expect("transform-assembly", dense(a.get_beam_transform_matrix("B")), T),
              expect("K", dense(m.get_beam_K("B")), K), expect("K-global", dense(m.get_beam_K("B", local=False)), T.T @ K @ T),
              expect("K-assembly", dense(a.get_beam_K("B")), K),
              expect("M-global", dense(m.get_beam_M("B", local=False)), T.T @ dense(m.get_beam_M("B")) @ T))
    if r:
        return r
    if tuple(m.get_beam_connection("B")) != ("I", "J") or list(m.get_beam_node_hids("B")) != [hI, hJ] or list(a.get_beam_node_hids("B")) != [hI, hJ]:
        return "connection", f"{m.get_beam_connection('B')} {m.get_beam_node_hids('B')}"
    if tuple(m.get_beam_connection("Z")) != ("J", "I") or list(m.get_beam_node_hids("Z")) != [hJ, hI] or [list(map(float, x)) for x in m.get_beam_location("Z")] != [list(map(float, c["q"])), list(map(float, c["p"]))]:
        return "connection", f"{m.get_beam_connection('Z')} {m.get_beam_node_hids('Z')}"
    if c["kind"] == "SimpleBeam" or c["rel"]:
        m.set_beam_releases("B", **{n + e: True for n, e, k in ((x, y, 6 * (y == "j") + i) for i, x in enumerate(("u1", "u2", "u3", "r1", "r2", "r3")) for y in "ij") if k in c["rel"]})
    keep = [i for i in range(12) if i not in c["rel"]]
    W = np.zeros((12, 12))
    if c["rel"]:
        x = K[np.ix_(keep, keep)] - K[np.ix_(keep, c["rel"])] @ np.linalg.solve(K[np.ix_(c["rel"], c["rel"])], K[np.ix_(c["rel"], keep)])
        W[np.ix_(keep, keep)] = x
    else:
        W = K
    Mc = dense(m.get_beam_condensated_matrix("B", m.get_beam_M("B")))
    r = first(expect("M-condensed", dense(m.get_beam_M("B", condensate=True)), Mc), expect("M-condensed-global", dense(m.get_beam_M("B", condensate=True, local=False)), T.T @ Mc @ T))
    if r:
        return r
    N0, N1 = m.get_beam_interpolate("B", c["r"]), m.get_beam_interpolate1("B", c["r"])
    r = first(expect("K-condensed", dense(m.get_beam_K("B", condensate=True)), W), expect("K-condensed-global", dense(m.get_beam_K("B", condensate=True, local=False)), T.T @ W @ T),
                 expect("K-condensed-matrix", dense(m.get_beam_condensated_matrix("B", m.get_beam_K("B"))), W), expect("K-unchanged", dense(m.get_beam_K("B")), K),
                 expect("interpolate", np.asarray(a.get_beam_interpolate("B", c["r"]), float), np.asarray(N0, float)), expect("interpolate1", np.asarray(a.get_beam_interpolate1("B", c["r"]), float), np.asarray(N1, float)))
    if r:
        return r
    # added again: a new member (no releases) between the nodes of now, and a new node (no mass) of the same number
    m.add_simple_beam("B", "I", "J", s["E"], s["mu"], s["A"], s["I2"], s["I3"], s["J"], s["rho"]) if c["kind"] == "SimpleBeam" else m.add_beam("B", "I", "J", "sec")
    r = first(expect("again-K", dense(m.get_beam_K("B", condensate=True)), K), expect("again-K-global", dense(m.get_beam_K("B", local=False, condensate=True)), T.T @ K @ T))
    if r:
        return r
    m.add_node("I", *c["p"])
    return first(expect("again-mass", m.get_nodal_mass("I"), [0] * 6), expect("again-node-M", dense(m.get_node_M("I")), np.zeros((6, 6))), None if m.get_node_hid("I") == hI else ("again-hid", ""))
