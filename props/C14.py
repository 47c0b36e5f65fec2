"""Restraints: what is set is what is reported, last setting per node wins, dictionaries handed out are independent copies."""
from vc.api import *

FUNCTIONS = ["core.fe_model.model.Model.set_nodal_restraint/get_nodal_restraint_dict", "core.fe_model.load.LoadCase.set_nodal_restraint/get_nodal_restraint_dict",
             "core.fe_model.load.loadcase.{StaticCase,ModalCase,ResponseSpectrumCase,TimeHistoryCase}.set_nodal_restraint/get_nodal_restraint_dict"]
KEYS = ["u1", "u2", "u3", "r1", "r2", "r3"]


def makers():
    mm, lcm, base = load("hyperstatic.core.fe_model.model"), load("hyperstatic.core.fe_model.load.loadcase"), load("hyperstatic.core.fe_model.load")

    def model():
        m = mm.Model()
        for i, n in enumerate("ABC"):
            m.add_node(n, i, 0, 0)
        return m
    return {"Model": model, "StaticCase": lambda: lcm.StaticCase("c"), "ModalCase": lambda: lcm.ModalCase("c"), "TimeHistoryCase": lambda: lcm.TimeHistoryCase("c"),
            "ResponseSpectrumCase": lambda: lcm.ResponseSpectrumCase("c", "m", None), "LoadCase": lambda: base.LoadCase("c")}


def contracts(E):
    for kind, mk in makers().items():
        def c(E):
            a = [bvar(("a", i)) for i in range(6)]
            b = [bvar(("b", i)) for i in range(6)]

            def same(name, got, want):
                E.same(name + " has six flags", len(got) == 6)
                for i in range(6):
                    # equality of truth values, decided per flag
                    g, w = got[i], want[i]
                    E.prove(f"{name} flag {KEYS[i]}", iff(g, w))
            o = mk()
            E.same("initially free", list(o.get_nodal_restraint_dict().keys()) == [])
            o.set_nodal_restraint("A", *a)
            same("first setting", o.get_nodal_restraint_dict()["A"], a)
            o.set_nodal_restraint("B", *b)
            same("other node's setting untouched", o.get_nodal_restraint_dict()["A"], a)
            same("second node", o.get_nodal_restraint_dict()["B"], b)
            o.set_nodal_restraint("A", *b)
            same("last setting wins", o.get_nodal_restraint_dict()["A"], b)
            E.same("names", sorted(o.get_nodal_restraint_dict().keys()) == ["A", "B"])
            d = o.get_nodal_restraint_dict()
            d["A"][0] = "spoiled"
            d["C"] = d["B"]
            same("handed out copies are independent", o.get_nodal_restraint_dict()["A"], b)
            E.same("names unchanged", sorted(o.get_nodal_restraint_dict().keys()) == ["A", "B"])
            if kind != "LoadCase":
                o.set_nodal_restraint("A", u3=True)
                same("omitted flags are free", o.get_nodal_restraint_dict()["A"], [False, False, True, False, False, False])
                o.set_nodal_restraint("A", r2=True, u1=True)
                same("keyword flags", o.get_nodal_restraint_dict()["A"], [True, False, False, False, True, False])
        E.run(f"{kind} restraints", c, functions=FUNCTIONS)


def iff(g, w):
    g = bool(g) if isinstance(g, (bool, npo.bool_)) else g
    if g is w or (isinstance(g, bool) and isinstance(w, bool)):
        return g == w
    return disj(conj(g, w), conj(neg(g), neg(w)))
