"""random load cases of 0-4 patterns (shared nodes and beams, re-added patterns, replaced factors, time curves of different length) against direct summation"""
from rt.common import *
from hyperstatic.core.fe_model.load.pattern import LoadPattern
from hyperstatic.core.fe_model.load import LoadCase
from hyperstatic.core.fe_model.load.loadcase import StaticCase, ModalCase, TimeHistoryCase

CORNERS = [{"kind": k, "pats": [], "l": 1} for k in ("StaticCase", "ModalCase", "TimeHistoryCase", "LoadCase")]
CORNERS += [{"kind": k, "pats": [{"name": "p", "f": 2, "load": {"N": [1, 2, 3, 4, 5, 6]}, "disp": {"N": [1, 0, 0, 0, 0, 0]}}], "l": 1} for k in ("StaticCase", "LoadCase")]


def gen(rng, i):
    kind = rng.choice(["StaticCase", "ModalCase", "TimeHistoryCase", "TimeHistoryCase", "LoadCase"])
    pats = []
    for _ in range(rng.randint(0, 4)):
        p = {"name": rng.choice("pqrs"), "f": rnum(rng, -3, 3) * rng.choice([1, 1, 1, 1e-3, -1e-6])}
        for k in ("load", "disp"):
            p[k] = {n: rvec(rng, 6) for n in "NMK" if rng.random() < 0.5}
        p["dist"] = {n: rvec(rng, 8) for n in "BC" if rng.random() < 0.5}
        p["conc"] = {n: rvec(rng, 6) + [round(rng.random(), 2)] for n in "BC" if rng.random() < 0.4}
        n = rng.randint(1, 5) if i % 20 else rng.randint(100, 260)
        p["curve"] = rvec(rng, n)
        if rng.random() < 0.3:
            p["refactor"] = rnum(rng, -3, 3)
            if rng.random() < 0.4:
                p["between"] = rng.choice([0, 0, 1, -1])    # another factor first
        pats.append(p)
    return {"kind": kind, "pats": pats, "l": rpos(rng), "early": rng.sample("pqrs", rng.randint(0, 3)) if rng.random() < 0.4 else []}


def check(c):
    kind, l = c["kind"], c["l"]
    lc = {"StaticCase": lambda: StaticCase("c"), "ModalCase": lambda: ModalCase("c"), "TimeHistoryCase": lambda: TimeHistoryCase("c"), "LoadCase": lambda: LoadCase("c")}[kind]()
    if lc.name != "c":
        return "name", lc.name
    st = {}
    for n in c.get("early", []): #factors given before the patterns are replaced by those the patterns are added with
        if any(n == p["name"] for p in c["pats"]):
            lc.set_pattern_factor(n, 11.)
    for p in c["pats"]:
        P = LoadPattern(p["name"])
        for n, v in p.get("load", {}).items():
            P.set_nodal_load(n, *v)
        for n, v in p.get("disp", {}).items():
            P.set_nodal_disp(n, *v)
        for n, v in p.get("dist", {}).items():
            P.set_beam_load_dist(n, *v)
        for n, v in p.get("conc", {}).items():
            P.set_beam_load_conc(n, *v)
        crv = np.array([list(range(len(p["curve"]))), p["curve"]], float) if p.get("curve") else np.array([[0, 1], [1, 1]], float)
        if kind == "TimeHistoryCase":
            lc.add_pattern(P, p["f"], crv)
        elif kind == "LoadCase" and p.get("curve") and len(p["curve"]) % 2:
            lc.add_pattern_time_history(P, p["f"], crv)
        else:
            lc.add_pattern(P, p["f"])
            crv = np.array([[0, 1], [1, 1]], float)
        f = p["f"]
        if "refactor" in p:
            f = p["refactor"]
            if "between" in p:
                lc.set_pattern_factor(p["name"], p["between"])
            lc.set_pattern_factor(p["name"], f)
        st[p["name"]] = (P, f, crv, p)
    steps = min([s[2].shape[1] for s in st.values()], default=2)
    mxs = max([s[2].shape[1] for s in st.values()], default=0)
    S6 = lambda n, t, k="load": sum((np.array(p[k][n], float) * f * (crv[1, t] if k == "load" else 1) for P, f, crv, p in st.values() if n in p.get(k, {})), np.zeros(6))
    for t in range(steps if kind == "TimeHistoryCase" else 1):
        for n in "NMKZ":
            r = expect("nodal-load", lc.get_nodal_f(n, t), S6(n, t))
            if r:
                return r
        for b in "BCZ":
            w = sum((P.get_beam_f(b, l) * f * crv[1, t] for P, f, crv, p in st.values()), np.zeros(12))
            r = expect("beam-load", lc.get_beam_f(b, l, t) if t else lc.get_beam_f(b, l), w)
            if r:
                return r
    d = lc.get_nodal_d_dict()
    if sorted(d) != sorted({n for s in st.values() for n in s[3].get("disp", {})}):
        return "displacement-names", str(sorted(d))
    for n in d:
        r = expect("displacement-dict", d[n], S6(n, 0, "disp"))
        if r:
            return r
    fd = lc.get_nodal_f_dict()
    if sorted(fd) != sorted({n for s in st.values() for n in s[3].get("load", {})}):
        return "load-names", str(sorted(fd))
    bd = lc.get_beam_f_dict({"B": l, "C": l})
    if sorted(bd) != sorted({n for s in st.values() for k in ("dist", "conc") for n in s[3].get(k, {})}):
        return "beam-names", str(sorted(bd))
    for n in fd:
        w = sum((np.array(p["load"][n], float) * f for P, f, crv, p in st.values() if n in p.get("load", {})), np.zeros(6))
        r = expect("load-dict", fd[n], w)
        if r:
            return r
    for n in bd:
        r = expect("beam-dict", bd[n], sum((P.get_beam_f(n, l) * f for P, f, crv, p in st.values()), np.zeros(12)))
        if r:
            return r
    if st and kind in ("TimeHistoryCase", "LoadCase"):
        dd = lc.get_nodal_f_time_history_dict()
        for n in "NMK":
            w = np.zeros((mxs, 6))
            for P, f, crv, p in st.values():
                if n in p.get("load", {}):
                    w[:crv.shape[1]] += np.outer(crv[1], np.array(p["load"][n], float)) * f
            r = first(expect("time-history", lc.get_nodal_f_time_history(n), w), None if n not in dd else expect("time-history-dict", dd[n], w),
                      None if (n in dd) == any(n in s[3].get("load", {}) for s in st.values()) else ("time-history-names", n))
            if r:
                return r
        mm = lc.get_max_min_step()
        if tuple(mm) != (mxs, steps):
            return "max-min-step", str(mm)
