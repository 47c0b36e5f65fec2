"""random histories of restraint settings on three nodes for the model and every kind of load case, against a dictionary; handed out dictionaries are copies"""
from rt.common import *
from hyperstatic.core.fe_model.model import Model
from hyperstatic.core.fe_model.load import LoadCase
from hyperstatic.core.fe_model.load.loadcase import StaticCase, ModalCase, TimeHistoryCase, ResponseSpectrumCase

KINDS = ["Model", "StaticCase", "ModalCase", "TimeHistoryCase", "ResponseSpectrumCase", "LoadCase"]
KEYS = ["u1", "u2", "u3", "r1", "r2", "r3"]
CORNERS = [{"kind": k, "ops": [["A", [i == j for i in range(6)]]]} for k in KINDS for j in range(6)]


def gen(rng, i):
    flags = lambda: rng.choice([[rng.random() < 0.5 for _ in range(6)], [rng.random() < 0.5 for _ in range(6)], [rng.random() < 0.5 for _ in range(6)], [True] * 6, [False] * 6])
    return {"kind": rng.choice(KINDS), "ops": [[rng.choice("ABC"), flags()] for _ in range(rng.randint(0, 5))], "kw": rng.random() < 0.5}


def check(c):
    k = c["kind"]
    if k == "Model":
        o = Model()
        for i, n in enumerate("ABC"):
            o.add_node(n, i, 0, 0)
        if o.set_nodal_restraint("unknown", True) is not False or o.get_nodal_restraint_dict() != {}:
            return "unknown-node", "restraint of an undefined node accepted"
    else:
        o = {"StaticCase": lambda: StaticCase("c"), "ModalCase": lambda: ModalCase("c"), "TimeHistoryCase": lambda: TimeHistoryCase("c"),
             "ResponseSpectrumCase": lambda: ResponseSpectrumCase("c", "m", None), "LoadCase": lambda: LoadCase("c")}[k]()
    st = {}
    for n, v in c["ops"]:
        if c.get("kw") and k != "LoadCase":
            o.set_nodal_restraint(n, **{a: b for a, b in zip(KEYS, v) if b})
        else:
            o.set_nodal_restraint(n, *v)
        st[n] = v
        d = o.get_nodal_restraint_dict()
        if sorted(d) != sorted(st):
            return "names", str(sorted(d))
        for m in st:
            if [bool(x) for x in d[m]] != st[m]:
                return "flags", f"{m}: {d[m]} instead of {st[m]}"
            d[m][:] = [not x for x in st[m]]
        d.clear()
    d = o.get_nodal_restraint_dict()
    for m in st:
        if [bool(x) for x in d[m]] != st[m]:
            return "copies", f"{m}: changed through a dictionary handed out"
