"""Load patterns store: last setting per name and kind wins, other names and kinds are untouched, queries return exactly what was set."""
from vc.api import *
import spec

FUNCTIONS = ["core.fe_model.load.pattern.LoadPattern.%s" % x for x in
             ("set_nodal_load", "set_nodal_disp", "set_beam_load_dist", "set_beam_load_conc", "get_nodal_f", "get_nodal_f_dict", "get_nodal_d", "get_nodal_d_dict",
              "get_beam_distributed", "get_beam_concentrated", "get_beam_f", "get_beam_f_dict", "name")]


def contracts(E):
    pm = load("hyperstatic.core.fe_model.load.pattern")
    a, b, u, w = vec("a", 6), vec("b", 6), vec("u", 6), vec("w", 6)
    d, g = vec("d", 8), vec("g", 8)
    r, r2, l = var("r"), var("r2"), var("l", pos=True)

    def nodal(E):
        P = pm.LoadPattern("pat")
        E.same("name", P.name == "pat")
        E.same("empty", P.get_nodal_f("n") is None and P.get_nodal_d("n") is None and P.get_beam_distributed("n") is None and P.get_beam_concentrated("n") is None)
        P.set_nodal_load("n", *a)
        P.set_nodal_disp("n", *u)
        E.eq("load", P.get_nodal_f("n"), a)
        E.eq("displacement", P.get_nodal_d("n"), u)
        P.set_nodal_load("n", *b)
        E.eq("last load wins", P.get_nodal_f("n"), b)
        E.eq("displacement untouched by loads", P.get_nodal_d("n"), u)
        P.set_nodal_disp("n", *w)
        E.eq("last displacement wins", P.get_nodal_d("n"), w)
        E.eq("load untouched by displacements", P.get_nodal_f("n"), b)
        P.set_nodal_load("m", *a)
        E.eq("other node's load untouched", P.get_nodal_f("n"), b)
        E.eq("second node", P.get_nodal_f("m"), a)
        E.same("no displacement of the second node", P.get_nodal_d("m") is None)
        f, dd = P.get_nodal_f_dict(), P.get_nodal_d_dict()
        E.same("load dictionary names", sorted(f.keys()) == ["m", "n"] and sorted(dd.keys()) == ["n"])
        E.eq("load dictionary", [f["n"], f["m"]], [b, a])
        E.eq("displacement dictionary", dd["n"], w)
        f.clear()
        dd["z"] = w
        E.eq("dictionaries are copies", P.get_nodal_f("n"), b)
        E.same("dictionaries are copies (displacements)", P.get_nodal_d("z") is None)
        P.set_nodal_load("k", f3=a[2])
        E.eq("omitted components are zero", P.get_nodal_f("k"), [0, 0, a[2], 0, 0, 0])
        P.set_nodal_load("k", m1=a[3], f1=a[0])
        E.eq("omitted components are reset", P.get_nodal_f("k"), [a[0], 0, 0, a[3], 0, 0])
        P.set_nodal_disp("k", u2=u[1])
        E.eq("omitted displacements are zero", P.get_nodal_d("k"), [0, u[1], 0, 0, 0, 0])
        P.set_nodal_disp("k", r1=u[3], u1=u[0])
        E.eq("omitted displacements are reset", P.get_nodal_d("k"), [u[0], 0, 0, u[3], 0, 0])
        P.set_nodal_load("o")
        P.set_nodal_disp("o")
        E.eq("everything omitted", [P.get_nodal_f("o"), P.get_nodal_d("o")], [[0] * 6] * 2)
    E.run("nodal loads and displacements", nodal, case_of={"ops": [["load", "n", list(a)], ["disp", "n", list(u)], ["load", "n", list(b)], ["disp", "n", list(w)], ["load", "m", list(a)]] + [["load", "k", [0, 0, a[2], 0, 0, 0], "kw"], ["disp", "k", [0, u[1], 0, 0, 0, 0], "kw"], ["disp", "o", [u[0], 0, 0, u[3], 0, 0], "kw"]], "l": 1}, functions=FUNCTIONS)

    D = lambda d: [d[0], d[1], d[2], d[3], 0, 0, d[4], d[5], d[6], d[7], 0, 0]
    n = ["pi", "qi2", "qi3", "ti", "pj", "qj2", "qj3", "tj"]

    def beam(E):
        P = pm.LoadPattern("pat")
        P.set_beam_load_conc("B", *a, r)
        E.same("no distributed load yet", P.get_beam_distributed("B") is None)
        P.set_beam_load_dist("B", **dict(zip(n, d)))
        E.eq("concentrated", P.get_beam_concentrated("B"), list(a) + [r])
        E.eq("distributed", P.get_beam_distributed("B"), D(d))
        P.set_beam_load_dist("B", **dict(zip(n, g)))
        P.set_beam_load_conc("B", *b, r2)
        E.eq("last concentrated load wins", P.get_beam_concentrated("B"), list(b) + [r2])
        E.eq("last distributed load wins", P.get_beam_distributed("B"), D(g))
        P.set_beam_load_dist("C", **dict(zip(n, d)))
        E.same("kinds are independent", P.get_beam_concentrated("C") is None)
        E.eq("equivalent loads of the last settings", P.get_beam_f("B", l),
             [x + y for x, y in zip(spec.concentrated(list(b[:3]), list(b[3:]), r2, l), spec.distributed(list(g), l))])
        E.eq("equivalent loads of the other beam", P.get_beam_f("C", l), spec.distributed(list(d), l))
        dd = P.get_beam_f_dict({"B": l, "C": 2 * l})
        E.same("names of the dictionary of equivalent loads", sorted(dd.keys()) == ["B", "C"])
        E.eq("dictionary of equivalent loads", dd["C"], spec.distributed(list(d), 2 * l))
        for k, i in zip(n, range(8)):
            P.set_beam_load_dist("o", **{k: d[i]})
            E.eq(f"only {k} given", P.get_beam_distributed("o"), D([d[j] if j == i else 0 for j in range(8)]))
        for k, i in zip(("F1", "F2", "F3", "M1", "M2", "M3"), range(6)):
            P.set_beam_load_conc("o", **{k: a[i]})
            E.eq(f"only {k} given, at midspan", P.get_beam_concentrated("o"), [a[j] if j == i else 0 for j in range(6)] + [S.const(1) / 2])
        E.same("nodal stores untouched", P.get_nodal_f_dict() == {} and P.get_nodal_d_dict() == {})
    E.run("beam loads", beam, case_of={"ops": [["conc", "B", list(a) + [r]], ["dist", "B", list(d)], ["dist", "B", list(g)], ["conc", "B", list(b) + [r2]], ["dist", "C", list(d)]], "l": l}, functions=FUNCTIONS)

    # any number of loaded nodes
    el = elem("node")
    val = [fn("load", el, S.const(i)) for i in range(6)]

    def many(E):
        P = pm.LoadPattern("pat")
        prog = program("def go(P, names, val):\n    for n in names:\n        P.set_nodal_load(n, *val)\n")
        prog.go(P, SList.over(el), val)
        E.eq("every loaded node keeps its load", P.get_nodal_f(el), val)
        acc = program("def tot(P):\n    t = 0\n    for k, v in P.get_nodal_f_dict().items():\n        t = t + v[2]\n    return t\n").tot(P)
        E.eq("the dictionary holds exactly the loaded nodes", acc, Sum(el, val[2]))
    E.run("any number of nodes", many, functions=FUNCTIONS)
