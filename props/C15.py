"""Model identity: names map one-to-one onto 0..n-1 in order of addition, re-adding keeps the hid, duplicates by location are merged only on request."""
from vc.api import *

M = "core.fe_model.model.Model."
FUNCTIONS = [M + x for x in ("add_node", "add_beam", "add_simple_beam", "add_shell", "get_node_hid", "get_beam_hid", "get_shell_hid", "node_count", "beam_count", "get_node_names", "get_beam_names", "get_shell_names")] + \
    ["core.fe_model.assembly.Assembly.get_node_hid/get_beam_hid/node_count"]


def model():
    return load("hyperstatic.core.fe_model.model").Model()


def contracts(E):
    sb = dict(zip(("E", "mu", "A", "I2", "I3", "J", "rho"), V("E", "mu", "A", "I2", "I3", "J", "rho")))
    p, q, r = [vec(x, 3) for x in "pqr"]
    tol = S.const(1) / 10**9

    def nodes(E):
        m = model()
        E.same("empty", m.node_count == 0 and m.get_node_names() == [] and m.beam_count == 0 and m.get_beam_names() == [] and m.get_shell_names() == [])
        E.same("first", m.add_node("A", *p) == 0)
        E.same("second", m.add_node("B", *q) == 1)
        E.same("hids", m.get_node_hid("A") == 0 and m.get_node_hid("B") == 1 and m.node_count == 2)
        E.same("re-adding keeps the hid", m.add_node("A", *r) == 0 and m.get_node_hid("A") == 0 and m.node_count == 2 and m.get_node_hid("B") == 1)
        E.eq("re-adding moves the node", m.get_node_location("A"), r)
        E.same("next hid", m.add_node("C", *p) == 2 and m.get_node_hid("C") == 2)
        E.same("names in order of addition", m.get_node_names() == ["A", "B", "C"] and m.node_count == 3)
        E.same("no duplicate check unless asked", m.add_node("D", *p) == 3 and m.node_count == 4)
        ms = vec("ms", 6)
        m.set_nodal_mass("B", *ms)
        m.set_nodal_mass("C", *ms)
        m.set_nodal_restraint("C", True, False, True)
        m.set_nodal_restraint("B", False, True)
        E.same("existing name at its own location, duplicate check", m.add_node("B", *q, check_dup=True) in (0, 1, 2, 3) and m.node_count == 4)
        E.eq("mass of the existing node is kept", m.get_nodal_mass("B"), ms)
        m.add_node("C", *r)
        E.eq("a replaced node is new", m.get_nodal_mass("C"), [0] * 6)
        d = m.get_nodal_restraint_dict()
        E.same("restraints are kept", sorted(d) == ["B", "C"] and [bool(x) for x in d["C"]] == [True, False, True] + [False] * 3 and [bool(x) for x in d["B"]] == [False, True] + [False] * 4)
        E.same("unknown node", raises(m.get_node_hid, "Z", exc=KeyError)[0])
    E.run("nodes", nodes, functions=FUNCTIONS, case_of={"ops": [["node", "A", list(p), False], ["node", "B", list(q), False], ["node", "A", list(r), False], ["node", "C", list(p), False]]})

    def dup(E):
        m = model()
        m.add_node("A", *p)
        m.add_node("B", *q)
        h = m.add_node("C", *r, check_dup=True)
        near = lambda a, b: norm(npo.array(a) - npo.array(b)) < tol
        if E.decide(near(r, p)):
            E.same("coincident with A", h == 0 and m.node_count == 2 and m.get_node_names() == ["A", "B"])
        elif E.decide(near(r, q)):
            E.same("coincident with B", h == 1 and m.node_count == 2 and m.get_node_names() == ["A", "B"])
        else:
            E.same("new location", h == 2 and m.node_count == 3 and m.get_node_hid("C") == 2)
        E.eq("existing nodes are untouched", m.get_node_location("A"), p)
        E.eq("existing nodes are untouched (B)", m.get_node_location("B"), q)
    P = [p[0], p[1], p[2]]
    E.run("duplicate nodes", dup, functions=FUNCTIONS, hints=[dict(p0=1, p1=2, p2=3, q0=4, q1=5, q2=6, r0=1, r1=2, r2=3), dict(p0=1, p1=2, p2=3, q0=4, q1=5, q2=6, r0=4, r1=5, r2=6), dict(p0=1, p1=2, p2=3, q0=4, q1=5, q2=6, r0=4, r1=5, r2=5)],
          case_of={"ops": [["node", "A", list(p), False], ["node", "B", list(q), False], ["node", "C", list(r), True]]})

    def beams(E):
        m = model()
        for i, n in enumerate("ABCD"):
            m.add_node(n, i * i, 2 * i, 1 - i)
        sec = dict(sb)
        E.same("first", m.add_simple_beam("x", "A", "B", **sec) == 0 and m.beam_count == 1)
        m.add_isotropic_material("s", sb["rho"], sb["E"], sb["mu"], var("al"))
        m.add_beam_section_general("g", "s", *V("A", "As2", "As3", "I22", "I33", "J", "W22", "W33"))
        E.same("second", m.add_beam("y", "B", "C", "g") == 1 and m.beam_count == 2)
        E.same("third", m.add_beam("z", "C", "D", "g", check_dup=True) == 2)
        E.same("same ends", m.add_beam("w", "C", "D", "g", check_dup=True) == 2 and m.beam_count == 3)
        E.same("same ends reversed", m.add_simple_beam("w", "B", "A", check_dup=True, **sec) == 0 and m.beam_count == 3)
        E.same("one common end is not a duplicate", m.add_simple_beam("w", "A", "C", check_dup=True, **sec) == 3 and m.beam_count == 4)
        E.same("no duplicate check unless asked", m.add_beam("v", "A", "C", "g") == 4 and m.beam_count == 5)
        E.same("re-adding keeps the hid", m.add_beam("y", "D", "A", "g") == 1 and m.beam_count == 5 and m.add_simple_beam("x", "D", "B", **sec) == 0)
        E.same("re-adding replaces the beam", m.get_beam_connection("y") == ("D", "A") and m.get_beam_connection("x") == ("D", "B"))
        E.same("others untouched", m.get_beam_connection("z") == ("C", "D") and m.get_beam_connection("w") == ("A", "C"))
        E.same("names", m.get_beam_names() == ["x", "y", "z", "w", "v"] and [m.get_beam_hid(n) for n in "xyzwv"] == [0, 1, 2, 3, 4])
        E.same("nodes untouched", m.get_node_names() == list("ABCD"))
        E.same("undefined node", raises(m.add_simple_beam, "u", "A", "Q", **sec)[0] and m.beam_count == 5 and m.get_beam_names() == ["x", "y", "z", "w", "v"])
        E.same("undefined section", raises(m.add_beam, "u", "A", "B", "none")[0] and m.beam_count == 5)
        E.same("what was refused takes no number", m.add_beam("t", "B", "D", "g") == 5 and m.add_beam("u", "A", "D", "g") == 6 and m.add_simple_beam("s", "D", "C", **sec) == 7 and m.get_beam_names() == ["x", "y", "z", "w", "v", "t", "u", "s"])
    E.run("beams", beams, functions=FUNCTIONS)

    def shells(E):
        m = model()
        for n, (x, y) in zip("ABCDEF", ((0, 0), (2, 0), (2, 1), (0, 1), (4, 0), (4, 1))):
            m.add_node(n, x, y, 0)
        m.add_isotropic_material("s", sb["rho"], sb["E"], sb["mu"], var("al"))
        m.add_shell_section("t", "s", var("t"))
        E.same("hids", m.add_shell("s1", "t", "A", "B", "C", "D") == 0 and m.add_shell("s2", "t", "B", "E", "F") == 1)
        E.same("re-adding keeps the hid", m.add_shell("s1", "t", "B", "E", "F", "C") == 0 and m.add_shell("s3", "t", "A", "B", "C") == 2)
        E.same("names", m.get_shell_names() == ["s1", "s2", "s3"] and [m.get_shell_hid(n) for n in m.get_shell_names()] == [0, 1, 2])
        m.add_beam_section_general("g", "s", *V("A", "As2", "As3", "I22", "I33", "J", "W22", "W33"))
        E.same("beams are numbered apart from shells", m.add_beam("b1", "A", "B", "g") == 0 and m.add_simple_beam("b2", "B", "E", **sb) == 1 and m.beam_count == 2 and m.get_beam_hid("b2") == 1)
        E.same("an undefined section or node adds nothing", raises(m.add_shell, "s4", "nope", "A", "B", "C")[0] and raises(m.add_shell, "s4", "t", "A", "B", "Z")[0] and m.get_shell_names() == ["s1", "s2", "s3"]
               and m.add_shell("s5", "t", "A", "E", "C") == 3 and m.add_shell("s4", "t", "A", "C", "D") == 4 and m.get_shell_hid("s5") == 3)
        m.add_beam("b3", "B", "F", "g")
        E.same("names of beams", m.get_beam_names() == ["b1", "b2", "b3"] and m.get_beam_hid("b3") == 2)
        E.same("connections", m.get_shell_connection("s1") == ("B", "E", "F", "C") and m.get_shell_connection("s2") == ("B", "E", "F"))
        E.same("kinds are numbered separately", m.add_simple_beam("s1", "A", "B", **sb) == 3 and m.get_beam_hid("s1") == 3 and m.get_shell_hid("s1") == 0 and m.get_node_hid("A") == 0)
    E.run("shells", shells, functions=FUNCTIONS)

    # any number of nodes and beams
    el, be = elem("node"), elem("beam")
    cl = program("""
def nodes(m, names, x, y, z):
    for n in names:
        m.add_node(n, x, y, z)
def beams(m, names, s, e, sec):
    for b in names:
        m.add_simple_beam(b, s, e, **sec)
def hsum(m):
    t = 0
    for n in m.get_node_names():
        t = t + m.get_node_hid(n)
    return t
""")
    loc = [fn(x, el) for x in "xyz"]

    def many(E):
        m = model()
        m.add_node("A", *p)
        cl.nodes(m, SList.over(el), *loc)
        E.eq("hid is the position of the node in the order of addition", m.get_node_hid(el), 1 + fn("idx", el, nonneg=True))
        E.eq("number of nodes", m.node_count, 1 + card(el))
        E.eq("location", m.get_node_location(el), loc)
        E.same("first node keeps its hid", m.get_node_hid("A") == 0)
    E.run("any number of nodes", many, functions=FUNCTIONS)

    def manyb(E):
        m = model()
        m.add_node("A", 0, 0, 0)
        m.add_node("B", 1, 2, 2)
        m.add_simple_beam("b0", "A", "B", **sb)
        cl.beams(m, SList.over(be), "A", "B", sb)
        E.eq("beam hid is the position in the order of addition", m.get_beam_hid(be), 1 + fn("idx", be, nonneg=True))
        E.eq("number of beams", m.beam_count, 1 + card(be))
        E.same("first beam keeps its hid", m.get_beam_hid("b0") == 0)
    E.run("any number of beams", manyb, functions=FUNCTIONS)
