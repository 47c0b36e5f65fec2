"""Scenarios over the public Api, run both by the contracts (symbolic numbers, instrumented source) and by the run-time
contracts (concrete numbers, unmodified source).  Each yields (label, got, want): number arrays or plain values."""

SECT = [("rectangle", ["h", "b"]), ("I", ["H", "B", "tw", "tf"]), ("box", ["H", "B", "tw", "tf"]), ("circle", ["d"]), ("pipe", ["d", "t"]),
        ("general", ["A", "As2", "As3", "I22", "I33", "J", "W22", "W33"])]
NPAR = 90


class P:
    """hands out the parameters in order"""

    def __init__(self, vals):
        self.v, self.i = vals, 0

    def __call__(self, n=None):
        if n is None:
            self.i += 1
            return self.v[self.i - 1]
        return [self() for _ in range(n)]


def sections(w, vals):
    """every section kind: a beam with that section has the stiffness and mass of the same model built directly"""
    p = P(vals)
    q = {k: p() for k in ["h", "b", "d0", "t", "A", "As2", "As3", "I22", "I33", "J", "W22", "W33", "tw", "tf", "gh", "gb"]}
    q["H"], q["B"], q["d"] = 2 * q["tf"] + q["gh"], 2 * q["tw"] + q["gb"], 2 * q["t"] + q["d0"]
    mat = [p(), p(), p() / 100, p()]
    L = p() + 1
    for kind, args in SECT:
        api, m = w.core.Api("w"), w.model.Model()
        v = [q[a] for a in args]
        oks = [api.add_isotropic_material("mat", *mat), getattr(api, "add_beam_section_" + kind)("sec", "mat", *v), api.add_node("A", 0, 0, 0), api.add_node("B", L, 0, 0), api.add_beam("b", "A", "B", "sec"), api.assemble()]
        yield f"{kind}: calls succeed", oks, [True] * 6
        m.add_isotropic_material("mat", *mat)
        getattr(m, "add_beam_section_" + kind)("sec", "mat", *v)
        m.add_node("A", 0, 0, 0)
        m.add_node("B", L, 0, 0)
        m.add_beam("b", "A", "B", "sec")
        a, r = w.saved("w"), w.asm.Assembly(m, [])
        yield f"{kind}: stiffness", w.dense(a.get_beam_K("b")), w.dense(r.get_beam_K("b"))
        yield f"{kind}: mass", w.dense(a.assemble_M()), w.dense(r.assemble_M())
        yield f"{kind}: unknown material", getattr(api, "add_beam_section_" + kind)("s2", "nope", *v), False
        yield f"{kind}: the rejected section does not exist", api.add_beam("b2", "A", "B", "s2"), False
        yield f"{kind}: beams", api.get_beam_names(), ["b"]


def frame(w, vals):
    """nodes, beams, simple beams, releases, masses, restraints, and all the queries"""
    p = P(vals)
    api, m = w.core.Api("w"), w.model.Model()
    x = [p() + 1 for _ in range(3)]
    loc = {"A": [0, 0, 0], "B": [x[0], 0, 0], "C": [x[0], x[1], 0], "D": [0, 0, x[2]]}
    for n in "BADC":
        yield f"add_node {n}", api.add_node(n, *loc[n]), True
        m.add_node(n, *loc[n])
    yield "node names in order of addition", api.get_node_names(), list("BADC")
    for n in loc:
        yield f"location of {n}", list(api.get_node_location(n)), loc[n]
    mat = [p(), p(), p() / 100, p()]
    sec = p(8)
    yield "material", api.add_isotropic_material("mat", *mat), True
    yield "section", api.add_beam_section_general("sec", "mat", *sec), True
    m.add_isotropic_material("mat", *mat)
    m.add_beam_section_general("sec", "mat", *sec)
    sb = [p(), p() / 100] + p(5)
    yield "beam", api.add_beam("b1", "B", "A", "sec"), True
    yield "simple beam", api.add_simple_beam("b2", "B", "C", *sb), True
    yield "beam 3", api.add_beam("b3", "D", "A", "sec"), True
    m.add_beam("b1", "B", "A", "sec")
    m.add_simple_beam("b2", "B", "C", *sb)
    m.add_beam("b3", "D", "A", "sec")
    yield "beam names", api.get_beam_names(), ["b1", "b2", "b3"]
    ends = {"b1": "BA", "b2": "BC", "b3": "DA"}
    for b, e in ends.items():
        yield f"ends of {b}", api.get_beam_node_names(b), tuple(e)
        yield f"locations of {b}", [list(q) for q in api.get_beam_location(b)], [loc[n] for n in e]
    yield "release r2 at the end of b1", api.set_beam_release("b1", r2j=True), True
    m.set_beam_releases("b1", r2j=True)
    yield "releases at both ends of b2", api.set_beam_release("b2", r1i=True, r3i=True, r1j=True), True
    m.set_beam_releases("b2", r1i=True, r3i=True, r1j=True)
    yield "releases r1, r3 at the start of b3", api.set_beam_release("b3", False, False, False, True, False, True), True
    m.set_beam_releases("b3", r1i=True, r3i=True)
    mass = p(6)
    yield "mass of C", api.set_nodal_mass("C", *mass), True
    yield "mass of D, two components", api.set_nodal_mass("D", u2=mass[1], r3=mass[4]), True
    yield "mass given twice", [api.set_nodal_mass("A", 1, 2, 3, 4, 5, 6), api.set_nodal_mass("A", u3=mass[0], r1=mass[1])], [True, True]
    yield "mass given and taken back", [api.set_nodal_mass("D", *mass), api.set_nodal_mass("D"), api.set_nodal_mass("D", u2=mass[1], r3=mass[4]), api.set_nodal_mass("B", *mass), api.set_nodal_mass("B", 0, 0, 0, 0, 0, 0)], [True] * 5
    yield "mass of B taken back", api.assemble(), True
    t = w.model.Model()
    for n in "BADC":
        t.add_node(n, *loc[n])
    for n, v in (("A", [0, 0, mass[0], mass[1], 0, 0]), ("C", mass), ("D", [0, mass[1], 0, 0, 0, mass[4]])):
        t.set_nodal_mass(n, *v)
    for b, e in ends.items():
        t.add_simple_beam(b, *e, *sb) if b == "b2" else (t.add_isotropic_material("mat", *mat), t.add_beam_section_general("sec", "mat", *sec), t.add_beam(b, *e, "sec"))
    for b, q in (("b1", {"r2j": True}), ("b2", {"r1i": True, "r3i": True, "r1j": True}), ("b3", {"r1i": True, "r3i": True})):
        t.set_beam_releases(b, **q)
    yield "mass without B", w.dense(w.saved("w").assemble_M()), w.dense(w.asm.Assembly(t, []).assemble_M())
    yield "mass of B, one component", api.set_nodal_mass("B", mass[2]), True
    m.set_nodal_mass("A", 0, 0, mass[0], mass[1], 0, 0)
    m.set_nodal_mass("B", mass[2], 0, 0, 0, 0, 0)
    m.set_nodal_mass("C", *mass)
    m.set_nodal_mass("D", 0, mass[1], 0, 0, 0, mass[4])
    yield "restraint given and taken back", [api.set_nodal_restraint("A", *[True] * 6), api.set_nodal_restraint("A"), api.set_nodal_restraint("D", *[True] * 6), api.set_nodal_restraint("D", *[False] * 6)], [True] * 4
    yield "no restraint left", not any(bool(z) for v in api.get_node_restraints().values() for z in v), True
    yield "restraint", api.set_nodal_restraint("A", True, False, True, False, False, True), True
    yield "restraint by name", api.set_nodal_restraint("D", u2=True, r1=True), True
    yield "restraints", {k: [bool(z) for z in v] for k, v in api.get_node_restraints().items()}, {"A": [True, False, True, False, False, True], "D": [False, True, False, True, False, False]}
    m.set_nodal_restraint("A", True, False, True, False, False, True)
    m.set_nodal_restraint("D", u2=True, r1=True)
    yield "no case yet", api.get_node_restraints("lc"), None
    yield "static case", api.add_static_case("lc"), True
    yield "modal case", api.add_modal_case("mc"), True
    yield "restraint of a case", api.set_loadcase_nodal_restraint("lc", "C", False, True, False, False, True, False), True
    yield "restraints of the case", {k: [bool(z) for z in v] for k, v in api.get_node_restraints("lc").items()}, {"C": [False, True, False, False, True, False]}
    yield "restraints of the other case", len(api.get_node_restraints("mc")), 0
    # refused requests change nothing
    before = w.state(api)
    for label, got, want in refused(api):
        yield "refused: " + label, got, want
    after = w.state(api)
    yield "refused requests change no names or restraints", after[0], before[0]
    for i, (g, t) in enumerate(zip(after[1], before[1])):
        yield f"refused requests change no location {i}", g, t
    # what was refused can be added later
    for x, e in (("by", "BD"), ("bz", "CD")):
        yield f"beam {x}", api.add_beam(x, *e, "sec"), True
        m.add_beam(x, *e, "sec")
        ends[x] = e
    yield "beam names after refusals", api.get_beam_names(), ["b1", "b2", "b3", "by", "bz"]
    yield "assemble", api.assemble(), True
    lc = w.lc.StaticCase("lc")
    lc.set_nodal_restraint("C", False, True, False, False, True, False)
    a, r = w.saved("w"), w.asm.Assembly(m, [lc, w.lc.ModalCase("mc")])
    yield "stiffness", w.dense(a.assemble_K()), w.dense(r.assemble_K())
    yield "mass", w.dense(a.assemble_M()), w.dense(r.assemble_M())
    for c in (None, "lc", "mc"):
        yield f"restrained dofs, {c}", [int(i) for i in a.restraintDOF(c)], [int(i) for i in r.restraintDOF(c)]
    yield "dofs", [a.DOF, a.node_count], [r.DOF, r.node_count]
    for b, e in ends.items():
        yield f"stiffness of {b}", w.dense(a.get_beam_K(b)), w.dense(r.get_beam_K(b))
        yield f"nodes of {b}", list(a.get_beam_node_hids(b)), ["BADC".index(n) for n in e]
    yield "modal settings", a.get_loadcase_setting("mc"), r.get_loadcase_setting("mc")
    yield "static settings", a.get_loadcase_setting("lc"), r.get_loadcase_setting("lc")


def refused(api):
    F, N = False, None
    yield "location of an unknown node", api.get_node_location("Z"), N
    yield "mass of an unknown node", api.set_nodal_mass("Z", 1), F
    yield "mass of an unknown node, zero", api.set_nodal_mass("Z"), F
    yield "restraint of an unknown node, none", api.set_nodal_restraint("Z"), F
    yield "release of an unknown beam, none", api.set_beam_release("bz"), F
    yield "no restraint in an unknown case", api.set_loadcase_nodal_restraint("nope", "A"), F
    yield "zero load in an unknown pattern", [api.set_nodal_load("nope", "A"), api.set_beam_load_distributed("nope", "b1"), api.set_beam_load_concentrated("nope", "b1")], [F, F, F]
    yield "unknown pattern added to a case with factor zero", api.add_case_pattern("lc", "nope", 0), F
    yield "beam with unknown start", api.add_beam("bz", "Z", "A", "sec"), F
    yield "beam with unknown end", api.add_beam("bz", "A", "Z", "sec"), F
    yield "beam with unknown section", api.add_beam("bz", "A", "B", "nope"), F
    yield "simple beam with unknown node", api.add_simple_beam("bz", "A", "Z", 1, 0, 1, 1, 1, 1, 1), F
    yield "restraint of an unknown node", api.set_nodal_restraint("Z", True), F
    yield "beam with unknown section, known name", api.add_beam("b1", "A", "B", "nope"), F
    yield "beam with unknown end, known name", api.add_beam("b1", "A", "Z", "sec"), F
    yield "general section of unknown material", api.add_beam_section_general("sec", "nope", 1, 1, 1, 1, 1, 1, 1, 1), F
    yield "ends of an unknown beam", api.get_beam_node_names("bz"), N
    yield "location of an unknown beam", api.get_beam_location("bz"), N
    yield "release of an unknown beam", api.set_beam_release("bz", True), F
    yield "shell with unknown section", api.add_shell("sz", "A", "B", "C", "D", "nope"), F
    yield "shell section of unknown material", api.add_shell_section("tz", "nope", 1), F
    yield "shell ends", api.get_shell_node_names("sz"), N
    yield "shell location", api.get_shell_location("sz"), N
    yield "restraint in an unknown case", api.set_loadcase_nodal_restraint("nope", "A", True), F
    yield "restraints of an unknown case", api.get_node_restraints("nope"), N
    yield "nodal load in an unknown pattern", api.set_nodal_load("nope", "A", 1), F
    yield "nodal load of an unknown pattern", api.get_nodal_load("nope", "A"), N
    yield "all loads of an unknown pattern", api.get_all_nodal_load("nope"), N
    yield "distributed load in an unknown pattern", api.set_beam_load_distributed("nope", "b1", 1), F
    yield "concentrated load in an unknown pattern", api.set_beam_load_concentrated("nope", "b1", 1), F
    yield "unknown pattern added to a case", api.add_case_pattern("lc", "nope", 1), F
    yield "pattern added to an unknown case", api.add_case_pattern("nope", "nope", 1), F
    yield "restraints of the unknown case afterwards", api.get_node_restraints("nope"), N


def loads(w, vals):
    """patterns, loads, cases and factors"""
    p = P(vals)
    api, m = w.core.Api("w"), w.model.Model()
    L = p() + 1
    sb = [p(), p() / 100] + p(5)
    for n, q in (("A", [0, 0, 0]), ("B", [L, 0, 0])):
        api.add_node(n, *q)
        m.add_node(n, *q)
    api.add_simple_beam("b", "A", "B", *sb)
    m.add_simple_beam("b", "A", "B", *sb)
    yield "pattern", [api.add_loadpattern("p1"), api.add_loadpattern("p2")], [True, True]
    n1, n2 = p(6), p(6)
    d1, c2 = p(8), p(6)
    f1, f2, g = p(3)
    p1, p2 = w.pat.LoadPattern("p1"), w.pat.LoadPattern("p2")
    yield "nodal load", [api.set_nodal_load("p1", "A", 1, 2, 3), api.set_nodal_load("p1", "A", *n1), api.set_nodal_load("p2", "B", f2=n2[0], m3=n2[1])], [True] * 3
    p1.set_nodal_load("A", *n1)
    p2.set_nodal_load("B", 0, n2[0], 0, 0, 0, n2[1])
    yield "nodal load read back", list(api.get_nodal_load("p1", "A")), n1
    yield "nodal load by name read back", list(api.get_nodal_load("p2", "B")), [0, n2[0], 0, 0, 0, n2[1]]
    ad = api.get_all_nodal_load("p1")
    yield "all nodal loads: nodes", sorted(ad), ["A"]
    yield "all nodal loads: values", list(ad["A"]), n1
    yield "node without loads", api.get_nodal_load("p1", "B"), None
    yield "moments only", [api.add_loadpattern("pm"), api.set_nodal_load("pm", "B", m2=n1[0]), api.set_nodal_load("pm", "A", f3=n1[1])], [True] * 3
    ad = api.get_all_nodal_load("pm")
    yield "moments only: nodes", sorted(ad), ["A", "B"]
    yield "moments only: values", [list(ad["B"]), list(ad["A"])], [[0, 0, 0, 0, n1[0], 0], [0, 0, n1[1], 0, 0, 0]]
    yield "distributed load", [api.set_beam_load_distributed("p1", "b", *d1), api.set_beam_load_concentrated("p2", "b", *c2)], [True] * 2
    p1.set_beam_load_dist("b", *d1)
    p2.set_beam_load_conc("b", *c2)
    yield "loads by name", [api.add_loadpattern("p3"), api.set_beam_load_distributed("p3", "b", qi3=d1[0], tj=d1[1]), api.set_beam_load_concentrated("p3", "b", F3=c2[0], M1=c2[1], r=0.25)], [True] * 3
    p3 = w.pat.LoadPattern("p3")
    p3.set_beam_load_dist("b", qi3=d1[0], tj=d1[1])
    p3.set_beam_load_conc("b", F3=c2[0], M1=c2[1], r=0.25)
    for nm, rr in (("p4", 0), ("p5", 1)):
        yield f"concentrated load at {rr}", [api.add_loadpattern(nm), api.set_beam_load_concentrated(nm, "b", *c2, rr)], [True] * 2
    p4, p5 = w.pat.LoadPattern("p4"), w.pat.LoadPattern("p5")
    p4.set_beam_load_conc("b", *c2, 0)
    p5.set_beam_load_conc("b", *c2, 1)
    yield "cases of loads at the ends", [api.add_static_case("c4"), api.add_static_case("c5"), api.add_case_pattern("c4", "p4", f1), api.add_case_pattern("c5", "p5", f1)], [True] * 4
    yield "known pattern added to an unknown case", [api.add_case_pattern("nope", "p1", 1), api.get_node_restraints("nope")], [False, None]
    yield "unknown pattern added to a known case", api.add_case_pattern("c4", "nope", 1), False
    yield "cases", [api.add_static_case(c) for c in ("c1", "c2", "c3")] + [api.add_case_pattern("c1", "p1", f1), api.add_case_pattern("c1", "p2", f2), api.add_case_pattern("c2", "p2", g), api.add_case_pattern("c3", "p3", g)], [True] * 7
    cs = [w.lc.StaticCase(c) for c in ("c1", "c2", "c3", "c4", "c5")]
    cs[3].add_pattern(p4, f1)
    cs[4].add_pattern(p5, f1)
    cs[0].add_pattern(p1, f1)
    cs[0].add_pattern(p2, f2)
    cs[1].add_pattern(p2, g)
    cs[2].add_pattern(p3, g)
    yield "assemble", api.assemble(), True
    a, r = w.saved("w"), w.asm.Assembly(m, cs)
    z = w.zeros(12)
    for c in ("c1", "c2", "c3", "c4", "c5"):
        yield f"member loads of {c}", a.get_beam_end_force("b", z, c), r.get_beam_end_force("b", z, c)
    # loads taken back, factors given again
    yield "loads taken back", [api.set_nodal_load("p1", "A"), api.set_beam_load_distributed("p1", "b"), api.set_beam_load_concentrated("p2", "b"), api.add_case_pattern("c3", "p3", 0), api.assemble()], [True] * 5
    yield "loads taken back: read", list(api.get_nodal_load("p1", "A")), [0] * 6
    for c in ("c1", "c2", "c3"):
        yield f"loads taken back: member loads of {c}", w.saved("w").get_beam_end_force("b", z, c), z
    yield "loads given again", [api.set_nodal_load("p1", "A", *n1), api.set_beam_load_distributed("p1", "b", *d1), api.set_beam_load_concentrated("p2", "b", *c2), api.add_case_pattern("c3", "p3", g), api.assemble()], [True] * 5
    for c in ("c1", "c2", "c3"):
        yield f"loads given again: member loads of {c}", w.saved("w").get_beam_end_force("b", z, c), r.get_beam_end_force("b", z, c)
    # a pattern defined again starts empty, a case defined again too
    yield "redefined", [api.add_loadpattern("p1"), api.add_static_case("c9"), api.add_case_pattern("c9", "p1", f1), api.assemble()], [True] * 4
    yield "empty pattern", w.saved("w").get_beam_end_force("b", z, "c9"), z
    yield "empty pattern: nodal loads", [api.get_nodal_load("p1", "A"), len(api.get_all_nodal_load("p1"))], [None, 0]
    yield "restraint of a case to be replaced", api.set_loadcase_nodal_restraint("c2", "A", True), True
    yield "case defined again", [api.add_static_case("c2"), len(api.get_node_restraints("c2")), api.assemble()], [True, 0, True]
    yield "case defined again: no loads", w.saved("w").get_beam_end_force("b", z, "c2"), z
    yield "case defined again, other kind", [api.add_modal_case("c2"), api.add_static_case("m"), api.add_modal_case("m"), api.assemble()], [True] * 4
    for c in ("c2", "m"):
        yield f"settings of {c}", sorted(w.saved("w").get_loadcase_setting(c)), ["algorithm", "base_case", "mass_source", "n_modes", "use_load_as_mass"]
    yield "modal case to be replaced", [api.add_modal_case("m"), api.set_loadcase_nodal_restraint("m", "A", True), api.add_modal_case("m"), len(api.get_node_restraints("m"))], [True, True, True, 0]
    yield "and back", [api.add_static_case("m"), api.assemble(), sorted(w.saved("w").get_loadcase_setting("m"))], [True, True, ["base_case", "order"]]


def shells(w, vals):
    p = P(vals)
    api = w.core.Api("w")
    a, b = p() + 1, p() + 1
    loc = {"A": [0, 0, 0], "B": [a, 0, 0], "C": [a, b, 0], "D": [0, b, 0]}
    for n, q in loc.items():
        api.add_node(n, *q)
    yield "sections", [api.add_isotropic_material("mat", p(), p(), p() / 100, p()), api.add_shell_section("t", "mat", p()), api.add_shell_section("t2", "mat", p(), "plate")], [True] * 3
    yield "shell", api.add_shell("s", "A", "B", "C", "D", "t"), True
    yield "names", api.get_shell_names(), ["s"]
    yield "nodes", api.get_shell_node_names("s"), ("A", "B", "C", "D")
    yield "locations", [list(q) for q in api.get_shell_location("s")], [loc[n] for n in "ABCD"]
    if w.kernels:
        for et in (None, "shell", "plate", "membrane"):
            q, m = p(5), w.model.Model()
            v, a1 = w.core.Api("w"), (("t",) + ("mat", q[4]) + ((et,) if et else ()))
            v.add_isotropic_material("mat", q[0], q[1], q[2] / 100, q[3])
            m.add_isotropic_material("mat", q[0], q[1], q[2] / 100, q[3])
            for n, l in loc.items():
                v.add_node(n, *l)
                m.add_node(n, *l)
            yield f"{et} element", [v.add_shell_section(*a1), v.add_shell("s", "B", "C", "D", "A", "t"), v.assemble()], [True] * 3
            m.add_shell_section(*a1)
            m.add_shell("s", "t", "B", "C", "D", "A")
            yield f"stiffness of a {et} element", w.dense(w.saved("w").assemble_K()), w.dense(w.asm.Assembly(m, []).assemble_K())
    yield "unknown node", api.add_shell("s2", "A", "B", "C", "Z", "t"), False
    yield "unknown section", api.add_shell("s2", "A", "B", "C", "D", "b"), False
    yield "names after refusals", api.get_shell_names(), ["s"]


def persist(w, vals):
    """save / load / clear_workspace"""
    p = P(vals)
    api = w.core.Api("w")
    x = p(3)
    api.add_node("A", *x)
    api.add_loadpattern("p1")
    api.set_nodal_load("p1", "A", *p(6))
    api.set_nodal_restraint("A", u1=True)
    api.add_static_case("lc")
    api.add_modal_case("mc")
    api.add_case_pattern("lc", "p1", p())
    api.add_node("B", x[0] + p() + 1, x[1] + p(), x[2] + p())
    api.add_simple_beam("b", "A", "B", *p(7))
    api.add_loadpattern("p2")
    d = p(2)
    api.set_beam_load_distributed("p2", "b", d[0], d[0])
    api.add_loadpattern("p3")
    yield "save", api.save("f"), True
    b = w.core.Api.load("w", "f")
    yield "loaded names", [b.get_node_names(), b.get_beam_names()], [["A", "B"], ["b"]]
    yield "assembled before", api.assemble(), True
    f0, z = w.saved("w"), w.zeros(12)
    yield "loaded model is complete", b.assemble(), True
    f1 = w.saved("w")
    yield "loads of the loaded model", w.dense(f1.assemble_f("lc")), w.dense(f0.assemble_f("lc"))
    yield "stiffness of the loaded model", w.dense(f1.assemble_K()), w.dense(f0.assemble_K())
    yield "cases of the loaded model", [sorted(f1.get_loadcase_setting(c)) for c in ("lc", "mc")], [["base_case", "order"], ["algorithm", "base_case", "mass_source", "n_modes", "use_load_as_mass"]]
    yield "loaded location", list(b.get_node_location("A")), list(api.get_node_location("A"))
    yield "loaded load", list(b.get_nodal_load("p1", "A")), list(api.get_nodal_load("p1", "A"))
    yield "loaded restraints", [bool(x) for x in b.get_node_restraints()["A"]], [True] + [False] * 5
    s = w.core.Api("w")
    for c in ("lc", "mc"):
        yield f"case {c} without patterns", (s.add_static_case if c == "lc" else s.add_modal_case)(c), True
    s.add_node("A", *x)
    yield "restraints and save without patterns", [s.set_loadcase_nodal_restraint("mc", "A", True), s.save("h")], [True, True]
    s = w.core.Api.load("w", "h")
    yield "cases without patterns are loaded", [s.get_node_restraints("lc"), [bool(q) for q in s.get_node_restraints("mc")["A"]]], [{}, [True] + [False] * 5]
    for s in (api, b):
        s.set_nodal_load("p3", "B", d[1])
    yield "patterns without nodal loads are loaded", [s.add_static_case("l2") for s in (api, b)] + [s.add_case_pattern("l2", q, 2) for s in (api, b) for q in ("p2", "p3")], [True] * 6
    api.assemble()
    f0 = w.saved("w")
    b.assemble()
    f1 = w.saved("w")
    yield "member loads of patterns without nodal loads", f1.get_beam_end_force("b", z, "l2"), f0.get_beam_end_force("b", z, "l2")
    for nm in ("f.sep", "g.1", "F"):
        s.add_node("only " + nm, *x)
        yield f"saved as {nm}", [s.save(nm), w.core.Api.load("w", nm).get_node_names()], [True, s.get_node_names()]
    yield "the first file is as it was", w.core.Api.load("w", "f").get_node_names(), ["A", "B"]
    yield "no such file", w.core.Api.load("w", "nope"), None
    yield "no such folder", w.core.Api.load("nope", "f"), None
    w.touch("w/sub/x")
    w.touch("outside/y")
    yield "clear", api.clear_workspace(), True
    yield "the folder is there and empty", w.listing("w"), []
    yield "other folders stay", w.listing("outside"), ["y"]
    yield "nothing left to load", w.core.Api.load("w", "f"), None
    yield "works after clearing", [api.save("g"), w.core.Api.load("w", "g").get_node_names()], [True, ["A", "B"]]


FLAGS = [d + e for e in "ij" for d in ("u1", "u2", "u3", "r1", "r2", "r3")]


def releases(w, vals):
    """every end release alone and every pair of them, by name and by position; the last call counts"""
    p = P(vals)
    L, sb = p() + 1, [p(), p() / 100] + p(5)
    sets = [(i,) for i in range(12)] + [(i, j) for i in range(12) for j in range(i)]
    for k, s in enumerate(sets):
        api, m = w.core.Api("w"), w.model.Model()
        for t in (api, m):
            t.add_node("A", 0, 0, 0)
            t.add_node("B", L, 0, 0)
            t.add_simple_beam("b", "A", "B", *sb)
        names = [FLAGS[i] for i in s]
        if k % 2:
            yield f"first releases, {names}", api.set_beam_release("b", *[True] * 12), True
            yield f"releases {names}", api.set_beam_release("b", *[i in s for i in range(12)]), True
        else:
            yield f"releases {names}", api.set_beam_release("b", **{n: True for n in names}), True
        m.set_beam_releases("b", *[i in s for i in range(12)])
        yield "assemble", api.assemble(), True
        yield f"stiffness, releases {names}", w.dense(w.saved("w").assemble_K()), w.dense(w.asm.Assembly(m, []).assemble_K())


def again(w, vals):
    """materials, sections and beams defined again: the last definition counts for what is added after it"""
    p = P(vals)
    api, m = w.core.Api("w"), w.model.Model()
    L = p() + 1
    for n, q in (("A", [0, 0, 0]), ("B", [L, 0, 0]), ("C", [L, p() + 1, 0])):
        api.add_node(n, *q)
        m.add_node(n, *q)
    m1, m2 = [p(), p(), p() / 100, p()], [p(), p(), p() / 100, p()]
    s1, s2, sb, sb2 = p(8), p(8), [p(), p() / 100] + p(5), [p(), p() / 100] + p(5)
    yield "material twice", [api.add_isotropic_material("mat", *m1), api.add_isotropic_material("mat", *m2)], [True] * 2
    yield "section twice", [api.add_beam_section_general("sec", "mat", *s1), api.add_beam_section_general("sec", "mat", *s2)], [True] * 2
    yield "simple beam twice", [api.add_simple_beam("b", "A", "B", *sb), api.set_beam_release("b", r3i=True), api.add_simple_beam("b", "A", "B", *sb2)], [True] * 3
    yield "beam in the place of a simple beam", [api.add_simple_beam("c", "A", "C", *sb), api.add_beam("c", "B", "C", "sec")], [True] * 2
    yield "simple beam in the place of a beam", [api.add_beam("d", "A", "C", "sec"), api.add_simple_beam("d", "C", "A", *sb)], [True] * 2
    yield "names", api.get_beam_names(), ["b", "c", "d"]
    yield "ends", [api.get_beam_node_names(b) for b in "bcd"], [("A", "B"), ("B", "C"), ("C", "A")]
    m.add_isotropic_material("x", *m2)
    m.add_beam_section_general("y", "x", *s2)
    m.add_simple_beam("b", "A", "B", *sb2)
    m.add_beam("c", "B", "C", "y")
    m.add_simple_beam("d", "C", "A", *sb)
    yield "assemble", api.assemble(), True
    a, r = w.saved("w"), w.asm.Assembly(m, [])
    yield "stiffness", w.dense(a.assemble_K()), w.dense(r.assemble_K())
    yield "mass", w.dense(a.assemble_M()), w.dense(r.assemble_M())


SCENES = {"sections": sections, "frame": frame, "loads": loads, "shells": shells, "persist": persist, "again": again, "releases": releases}
