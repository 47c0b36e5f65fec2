"""random histories of load settings on few names (re-settings included) against a plain dictionary model; dictionaries handed out are copies"""
from rt.common import *
import spec
from hyperstatic.core.fe_model.load.pattern import LoadPattern

DN = ["pi", "qi2", "qi3", "ti", "pj", "qj2", "qj3", "tj"]
LN, UN, CN = "f1 f2 f3 m1 m2 m3".split(), "u1 u2 u3 r1 r2 r3".split(), "F1 F2 F3 M1 M2 M3 r".split()
N = {"load": 6, "disp": 6, "dist": 8, "conc": 7}
CORNERS = [{"ops": [], "l": 1}] + [{"ops": [[k, "A", list(range(1, N[k] + 1))]], "l": 2} for k in N] + \
    [{"ops": [[k, "A", [0] * 6 + ([0.5] if k == "conc" else [0, 0] if k == "dist" else []), "kw"]], "l": 2} for k in N] + \
    [{"ops": [["conc", "A", [1, 2, 3, 4, 5, 6, 0.25]], ["dist", "A", [1] * 8], ["conc", "A", [0, 0, 1, 0, 0, 0, 0.75]]], "l": 3}]


def gen(rng, i):
    ops = []
    for _ in range(rng.randint(1, 8)):
        k = rng.choice(list(N))
        v = rvec(rng, N[k])
        if k == "conc":
            v[6] = round(rng.random(), 3)
        if rng.random() < 0.4:
            for j in range(len(v)):
                if rng.random() < 0.6:
                    v[j] = 0.5 if k == "conc" and j == 6 else 0
            ops.append([k, rng.choice("AB"), v, "kw"])
        else:
            ops.append([k, rng.choice("AB"), v])
    return {"ops": ops, "l": rpos(rng), "names": rng.choice([["A", "B", "C"], ["b1", "b10", "b100"], ["b10", "b1", "b"], ["n.1", "n 1", "n"], ["梁", "梁1", ""]])}


def check(c):
    P = LoadPattern("pat")
    st = {k: {} for k in N}
    X = c.get("names") or ["A", "B", "C"]
    for k, n, v, *kw in c["ops"]:
        n = dict(zip("ABC", X)).get(n, n)
        st[k][n] = v
        if kw:                          # zero components are omitted
            f, names = {"load": (P.set_nodal_load, LN), "disp": (P.set_nodal_disp, UN), "dist": (P.set_beam_load_dist, DN), "conc": (P.set_beam_load_conc, CN)}[k]
            f(n, **{a: x for a, x in zip(names, v) if not (isinstance(x, (int, float)) and x == (0.5 if a == "r" else 0))})
        elif k == "load":
            P.set_nodal_load(n, *v)
        elif k == "disp":
            P.set_nodal_disp(n, *v)
        elif k == "dist":
            P.set_beam_load_dist(n, **dict(zip(DN, v)))
        else:
            P.set_beam_load_conc(n, *v)
    l = c["l"]
    if P.name != "pat":
        return "name", P.name
    for dic, get in ((P.get_nodal_f_dict, P.get_nodal_f), (P.get_nodal_d_dict, P.get_nodal_d)):
        x = dic()
        x["zz"] = 1
        if get("zz") is not None or "zz" in dic():
            return "dict-copy", "the dictionary handed out is the store itself"
    if sorted(P.get_nodal_f_dict()) != sorted(st["load"]) or sorted(P.get_nodal_d_dict()) != sorted(st["disp"]):
        return "names", f"{sorted(P.get_nodal_f_dict())} {sorted(P.get_nodal_d_dict())}"
    fd = P.get_beam_f_dict(dict(zip(X, (l, 2 * l, 3 * l))))
    if sorted(fd) != sorted(set(st["dist"]) | set(st["conc"])):
        return "beam-names", str(sorted(fd))
    for n in X:
        for key, got, want in (("load", P.get_nodal_f(n), st["load"].get(n)), ("disp", P.get_nodal_d(n), st["disp"].get(n)),
                               ("dist", P.get_beam_distributed(n), st["dist"].get(n) and st["dist"][n][:4] + [0, 0] + st["dist"][n][4:] + [0, 0]),
                               ("conc", P.get_beam_concentrated(n), st["conc"].get(n))):
            if want is None:
                if got is not None:
                    return key, f"{n}: {got} instead of nothing"
            elif got is None:
                return key, f"{n}: nothing instead of {want}"
            else:
                r = expect(key, got, want)
                if r:
                    return r
        L = float(dict(zip(X, (l, 2 * l, 3 * l)))[n])
        w = np.zeros(12)
        if n in st["dist"]:
            w = w + np.array(spec.distributed([float(x) for x in st["dist"][n]], L), float)
        if n in st["conc"]:
            v = [float(x) for x in st["conc"][n]]
            w = w + np.array(spec.concentrated(v[:3], v[3:6], v[6], L), float)
        r = expect("equivalent", P.get_beam_f(n, L), w)
        if r is None and n in fd:
            r = expect("equivalent-dict", fd[n], w)
        if r:
            return r
