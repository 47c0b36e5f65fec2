"""Model and assembly queries report what was modelled: locations, masses, connections, lengths, frames, local and global element matrices."""
from vc.api import *
from props.C06 import full
import spec

M = "core.fe_model.model.Model."
FUNCTIONS = [M + x for x in ("get_node_location", "set_nodal_mass", "get_nodal_mass", "get_node_M", "get_node_transform_matrix", "get_beam_connection", "get_beam_location", "get_beam_node_hids", "get_beam_length",
                             "get_beam_transform_matrix", "get_beam_K", "get_beam_M", "get_beam_condensated_matrix", "get_beam_condensated_f", "get_beam_interpolate", "get_beam_interpolate1",
                             "get_shell_connection", "get_shell_location", "get_shell_node_hids", "get_shell_transform_matrix", "add_beam_section_general", "add_isotropic_material")] + \
    ["core.fe_model.assembly.Assembly.%s" % x for x in ("get_node_hid", "get_node_transform_matrix", "get_beam_hid", "get_beam_node_hids", "get_beam_transform_matrix", "get_beam_K", "get_beam_interpolate", "get_beam_interpolate1", "get_loadcase_setting", "get_max_min_step")]
ASSUME = ["shell element stiffness kernels are out of scope here (C32)"]


def contracts(E):
    L = var("L", pos=True)
    p = V("px", "py", "pz")
    v = dict(zip(("E", "mu", "A", "I2", "I3", "J", "rho"), V("E", pos=True) + V("mu") + V("A", "I2", "I3", "J", "rho", pos=True)))

    def setup(kind):
        m = load("hyperstatic.core.fe_model.model").Model()
        m.add_node("N0", p[0] + 1, p[1] + 2, p[2] + 2)
        m.add_node("J", p[0], p[1] + L, p[2])
        m.add_node("I", *p)
        if kind == "SimpleBeam":
            m.add_simple_beam("b0", "N0", "I", 1, 0, 1, 1, 1, 1, 1)
            m.add_simple_beam("B", "I", "J", v["E"], v["mu"], v["A"], v["I2"], v["I3"], v["J"], v["rho"])
        else:
            m.add_isotropic_material("mat", v["rho"], v["E"], v["mu"], var("al"))
            m.add_isotropic_material("other", 1, 2, 0, 0)
            m.add_beam_section_general("sec", "mat", v["A"], *V("As2", "As3"), v["I2"], v["I3"], v["J"], *V("W22", "W33"))
            m.add_beam_section_general("sec2", "other", 1, 1, 1, 1, 1, 1, 1, 1)
            m.add_beam("b0", "N0", "I", "sec2")
            m.add_beam("B", "I", "J", "sec")
        return m
    for kind in ("Beam", "SimpleBeam"):
        def c(E):
            E.assume(v["mu"] > -1)
            E.assume(L > sym.Fraction(1, 10 ** 6))
            m = setup(kind)
            E.eq("node location", m.get_node_location("I"), p)
            E.eq("other node location", m.get_node_location("N0"), [p[0] + 1, p[1] + 2, p[2] + 2])
            E.eq("node transform", m.get_node_transform_matrix("I"), np.eye(6))
            ms = vec("m", 6)
            E.eq("no mass initially", m.get_nodal_mass("I"), [0] * 6)
            m.set_nodal_mass("I", *ms)
            E.eq("mass", m.get_nodal_mass("I"), ms)
            E.eq("other mass", m.get_nodal_mass("J"), [0] * 6)
            E.eq("node mass matrix", dense(m.get_node_M("I")), npo.diag(ms))
            E.same("connection", tuple(m.get_beam_connection("B")) == ("I", "J") and tuple(m.get_beam_connection("b0")) == ("N0", "I"))
            E.same("node hids", list(m.get_beam_node_hids("B")) == [2, 1] and list(m.get_beam_node_hids("b0")) == [0, 2])
            E.eq("location", [list(x) for x in m.get_beam_location("B")], [p, [p[0], p[1] + L, p[2]]])
            E.eq("length", m.get_beam_length("B"), L)
            if kind == "SimpleBeam":
                m.add_simple_beam("Z", "J", "I", 1, 0, 1, 1, 1, 1, 1)
            else:
                m.add_beam("Z", "J", "I", "sec2")
            E.same("connection of a reversed member", tuple(m.get_beam_connection("Z")) == ("J", "I") and list(m.get_beam_node_hids("Z")) == [1, 2])
            E.eq("location of a reversed member", [list(x) for x in m.get_beam_location("Z")], [[p[0], p[1] + L, p[2]], p])
            T = dense(m.get_beam_transform_matrix("B"))
            R = np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]])
            E.eq("transformation", T, blockdiag(R, 4))
            G = v["E"] / 2 / (1 + v["mu"])
            W = full(spec.stiffness(v["E"], G, v["A"], v["I2"], v["I3"], v["J"], L))
            E.eq("local stiffness", dense(m.get_beam_K("B")), W)
            E.eq("global stiffness", dense(m.get_beam_K("B", local=False)), npo.dot(npo.dot(T.T, W), T))
            Mc = dense(m.get_beam_M("B"))
            E.eq("global mass", dense(m.get_beam_M("B", local=False)), npo.dot(npo.dot(T.T, Mc), T))
            E.eq("condensed stiffness without releases", dense(m.get_beam_K("B", condensate=True)), W)
            m.set_beam_releases("B", r2i=True, r3j=True)
            C = dense(m.get_beam_K("B", condensate=True))
            E.eq("released end forces", list(C[4]) + list(C[11]), [0] * 24)
            E.eq("condensed matrix", dense(m.get_beam_condensated_matrix("B", m.get_beam_K("B"))), C)
            E.eq("local mass", dense(m.get_beam_M("B", local=True)), Mc)
            E.eq("condensed mass", dense(m.get_beam_M("B", condensate=True)), dense(m.get_beam_condensated_matrix("B", m.get_beam_M("B"))))
            E.eq("global condensed mass", dense(m.get_beam_M("B", condensate=True, local=False)), npo.dot(npo.dot(T.T, dense(m.get_beam_condensated_matrix("B", m.get_beam_M("B")))), T))
            E.eq("global condensed stiffness", dense(m.get_beam_K("B", condensate=True, local=False)), npo.dot(npo.dot(T.T, C), T))
            E.eq("uncondensed stiffness is kept", dense(m.get_beam_K("B")), W)
            a = load("hyperstatic.core.fe_model.assembly").Assembly(m, [load("hyperstatic.core.fe_model.load.loadcase").StaticCase("c")])
            E.same("assembly hids", a.get_node_hid("I") == 2 and a.get_beam_hid("B") == 1 and list(a.get_beam_node_hids("B")) == [2, 1] and a.node_count == 3)
            E.eq("assembly transformations", dense(a.get_beam_transform_matrix("B")), T)
            E.eq("assembly node transformation", a.get_node_transform_matrix("I"), np.eye(6))
            E.eq("assembly stiffness", dense(a.get_beam_K("B")), W)
            r = var("r")
            E.eq("interpolation", a.get_beam_interpolate("B", r), m.get_beam_interpolate("B", r))
            E.eq("interpolation of slopes", a.get_beam_interpolate1("B", r), m.get_beam_interpolate1("B", r))
            E.same("settings", a.get_loadcase_setting("c") == {"order": 1, "base_case": None})
        E.run(f"{kind} queries", c, functions=FUNCTIONS)

    def shells(E):
        m = load("hyperstatic.core.fe_model.model").Model()
        for n, x in zip("XABCD", ((9, 9, 9), (0, 0, 1), (3, 0, 1), (3, 2, 1), (0, 2, 1))):
            m.add_node(n, *x)
        m.add_isotropic_material("mat", v["rho"], v["E"], v["mu"], var("al"))
        m.add_shell_section("t", "mat", var("t"))
        m.add_shell("q", "t", "A", "B", "C", "D")
        m.add_shell("d", "t", "B", "C", "D")
        E.same("connections", tuple(m.get_shell_connection("q")) == tuple("ABCD") and tuple(m.get_shell_connection("d")) == tuple("BCD"))
        E.same("node hids", list(m.get_shell_node_hids("q")) == [1, 2, 3, 4] and list(m.get_shell_node_hids("d")) == [2, 3, 4])
        E.eq("locations", [list(x) for x in m.get_shell_location("q")], [[0, 0, 1], [3, 0, 1], [3, 2, 1], [0, 2, 1]])
        E.eq("locations of a triangle", [list(x) for x in m.get_shell_location("d")], [[3, 0, 1], [3, 2, 1], [0, 2, 1]])
    E.run("shell queries", shells, functions=FUNCTIONS)
