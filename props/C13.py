"""Load cases superpose: loads are the factored (and time-scaled) sums over any number of patterns; last factor wins."""
from vc.api import *

LC = "core.fe_model.load.LoadCase."
FUNCTIONS = [LC + x for x in ("add_pattern", "add_pattern_time_history", "set_pattern_factor", "get_nodal_f", "get_nodal_f_time_history", "get_nodal_f_dict", "get_nodal_d_dict",
                              "get_nodal_f_time_history_dict", "get_beam_f", "get_beam_f_dict", "get_max_min_step")] + ["core.fe_model.load.loadcase.%s.*" % x for x in ("StaticCase", "ModalCase", "TimeHistoryCase")]
ASSUME = ["patterns enter through the contract of LoadPattern (C10-C12): they report stored nodal loads, displacements and equivalent beam loads, or nothing",
          "pattern names are distinct (one pattern per name)"]


class Pat:
    """contract of a load pattern: for each queried name a stored vector, or nothing"""

    def __init__(self, E, el):
        self.E, self.el, self.name = E, el, el

    def _get(self, what, n, size):
        if self.E.decide(bvar(("has" + what, self.el, n))):
            return np.array([fn(what, self.el, n, S.const(i)) for i in range(size)])
        return None

    def get_nodal_f(self, n):
        return self._get("f", n, 6)

    def get_nodal_d(self, n):
        return self._get("d", n, 6)

    def get_beam_f(self, n, l):
        return np.array([fn("b", self.el, n, l, S.const(i)) for i in range(12)])

    def get_nodal_f_dict(self):
        v = self.get_nodal_f("N")
        return SDict() if v is None else SDict({"N": v})

    def get_nodal_d_dict(self):
        v = self.get_nodal_d("N")
        return SDict() if v is None else SDict({"N": v})

    def get_beam_f_dict(self, ld):
        if self.E.decide(bvar(("hasb", self.el))):
            return SDict({"B": self.get_beam_f("B", ld["B"])})
        return SDict()


class Curve:
    """row 1 of a time curve at a step"""

    def __init__(self, el):
        self.el = el
        self.shape = (2, fn("steps", el, pos=True))

    def __getitem__(self, k):
        r, s = k
        if r == 1:
            return fn("curve", self.el, coerce_step(s))
        raise Unsupported("curve row")


def coerce_step(s):
    return S.const(s) if isinstance(s, int) else s


def contracts(E):
    lcm = load("hyperstatic.core.fe_model.load.loadcase")
    base = load("hyperstatic.core.fe_model.load")
    pe = elem("pattern")
    fac, fac2 = fn("factor", pe), fn("factor2", pe)
    cl = program("""
def add(lc, pats, fac):
    for p in pats:
        lc.add_pattern(p, fac)
def addc(lc, pats, fac, crv):
    for p in pats:
        lc.add_pattern(p, fac, crv)
def addh(lc, pats, fac, crv):
    for p in pats:
        lc.add_pattern_time_history(p, fac, crv)
def refac(lc, names, fac):
    for n in names:
        lc.set_pattern_factor(n, fac)
""")
    l = var("l", pos=True)
    t = fn("step")

    def pats(E):
        P = Pat(E, pe)
        s = SList.over(pe)
        from vc.coll import map_parts
        return SList.of_parts(map_parts(s.parts(), lambda e: P))

    has = lambda w, n: ind(bvar(("has" + w, pe, n)))
    cases = {"StaticCase": (lambda: lcm.StaticCase("c")), "ModalCase": (lambda: lcm.ModalCase("c")), "LoadCase": (lambda: base.LoadCase("c"))}
    for kind, mk in cases.items():
        def c(E):
            lc = mk()
            E.same("name", lc.name == "c")
            cl.add(lc, pats(E), fac)
            E.eq("nodal load is the factored sum", lc.get_nodal_f("N"), [Sum(pe, has("f", "N") * fac * fn("f", pe, "N", S.const(i))) for i in range(6)])
            E.eq("beam load is the factored sum", lc.get_beam_f("B", l), [Sum(pe, fac * fn("b", pe, "B", l, S.const(i))) for i in range(12)])
        E.run(f"{kind}: superposition over any number of patterns", c, functions=FUNCTIONS)

    def c(E):
        lc = lcm.TimeHistoryCase("c")
        cl.addc(lc, pats(E), fac, Curve(pe))
        cv = fn("curve", pe, t)
        E.eq("nodal load at a time step", lc.get_nodal_f("N", t), [Sum(pe, has("f", "N") * fac * cv * fn("f", pe, "N", S.const(i))) for i in range(6)])
        E.eq("beam load at a time step", lc.get_beam_f("B", l, t), [Sum(pe, fac * cv * fn("b", pe, "B", l, S.const(i))) for i in range(12)])
    E.run("TimeHistoryCase: scaled by the time curves", c, functions=FUNCTIONS)

    def c(E):
        lc = base.LoadCase("c")
        cl.addh(lc, pats(E), fac, Curve(pe))
        E.eq("nodal load at a time step (time-history patterns)", lc.get_nodal_f("N", t),
             [Sum(pe, has("f", "N") * fac * fn("curve", pe, t) * fn("f", pe, "N", S.const(i))) for i in range(6)])
    E.run("LoadCase.add_pattern_time_history", c, functions=FUNCTIONS)

    # concrete numbers of patterns, symbolic contents: histories of factor settings, dictionaries
    pm = load("hyperstatic.core.fe_model.load.pattern")
    a, b, u, w = vec("a", 6), vec("b", 6), vec("u", 6), vec("w", 6)
    f1, f2, f3 = V("f1", "f2", "f3")
    x = [vec("x%d_" % k, 3) for k in range(2)]

    def two(E, kind, early=""):
        p, q = pm.LoadPattern("p"), pm.LoadPattern("q")
        p.set_nodal_load("N", *a)
        q.set_nodal_load("N", *b)
        q.set_nodal_load("M", *a)
        p.set_nodal_disp("N", *u)
        q.set_nodal_disp("N", *w)
        p.set_beam_load_dist("B", qi2=a[0], qj2=a[1])
        q.set_beam_load_conc("B", F3=b[0], r=b[1])
        lc = cases[kind]()
        for n in early:
            lc.set_pattern_factor(n, f3)
        lc.add_pattern(p, f1)
        lc.add_pattern(q, f2)
        E.eq("sum", lc.get_nodal_f("N"), f1 * a + f2 * b)
        E.eq("unloaded node", lc.get_nodal_f("K"), [0] * 6)
        E.eq("unloaded beam", lc.get_beam_f("K", l), [0] * 12)
        E.eq("beam sum", lc.get_beam_f("B", l), f1 * npo.array(p.get_beam_f("B", l)) + f2 * npo.array(q.get_beam_f("B", l)))
        d = lc.get_nodal_f_dict()
        E.same("dictionary names", sorted(d.keys()) == ["M", "N"])
        E.eq("load dictionary", [d["N"], d["M"]], [f1 * a + f2 * b, f2 * a])
        dd = lc.get_nodal_d_dict()
        E.same("displacement names", sorted(dd.keys()) == ["N"])
        E.eq("displacement dictionary", dd["N"], f1 * u + f2 * w)
        bd = lc.get_beam_f_dict({"B": l})
        E.eq("beam load dictionary", bd["B"], f1 * npo.array(p.get_beam_f("B", l)) + f2 * npo.array(q.get_beam_f("B", l)))
        lc.set_pattern_factor("p", f3)
        E.eq("factor replaced", lc.get_nodal_f("N"), f3 * a + f2 * b)
        lc.add_pattern(p, f1)
        E.eq("pattern added again counts once", lc.get_nodal_f("N"), f1 * a + f2 * b)
        p.set_nodal_load("N", *b)
        E.eq("pattern contents are read when asked", lc.get_nodal_f("N"), f1 * b + f2 * b)
        E.eq("queries do not change the patterns", q.get_nodal_f("N"), b)
        E.eq("queries do not change the patterns (other)", q.get_nodal_f("M"), a)
    for kind in cases:
        E.run(f"{kind}: two patterns", lambda E, k=kind: two(E, k), functions=FUNCTIONS,
              case_of={"kind": kind, "pats": [{"name": "p", "f": f1, "load": {"N": list(a)}, "disp": {"N": list(u)}}, {"name": "q", "f": f2, "load": {"N": list(b), "M": list(a)}, "disp": {"N": list(w)}}], "l": l})

    for kind in cases:
        E.run(f"{kind}: factors given before the patterns", lambda E, k=kind: two(E, k, "qp"), functions=FUNCTIONS,
              case_of={"kind": kind, "early": ["q", "p"], "pats": [{"name": "p", "f": f1, "load": {"N": list(a)}, "disp": {"N": list(u)}}, {"name": "q", "f": f2, "load": {"N": list(b), "M": list(a)}, "disp": {"N": list(w)}}], "l": l})

    def hist(E, early=""):
        p, q = pm.LoadPattern("p"), pm.LoadPattern("q")
        p.set_nodal_load("N", *a)
        q.set_nodal_load("N", *b)
        q.set_nodal_load("M", *a)
        lc = lcm.TimeHistoryCase("c")
        for n in early:
            lc.set_pattern_factor(n, f3)
        c1 = np.array([[0, 1, 2], list(x[0])])
        c2 = np.array([[0, 1], list(x[1][:2])])
        lc.add_pattern(p, f1, c1)
        lc.add_pattern(q, f2, c2)
        W = [[f1 * a[i] * x[0][s] + (f2 * b[i] * x[1][s] if s < 2 else 0) for i in range(6)] for s in range(3)]
        E.eq("nodal time history", lc.get_nodal_f_time_history("N"), W)
        dd = lc.get_nodal_f_time_history_dict()
        E.eq("dictionary of time histories", dd["N"], W)
        E.eq("dictionary of time histories (second node)", dd["M"], [[f2 * a[i] * x[1][s] if s < 2 else 0 for i in range(6)] for s in range(3)])
        mx, mn = lc.get_max_min_step()
        E.same("longest and shortest curve", mx == 3 and mn == 2)
        for s in range(2):
            E.eq(f"value at step {s}", lc.get_nodal_f("N", s), W[s])
    E.run("TimeHistoryCase: histories", hist, functions=FUNCTIONS)
    E.run("TimeHistoryCase: histories, a factor given before the patterns", lambda E: hist(E, "q"), functions=FUNCTIONS)

    def set_(E):
        s = lcm.StaticCase("s", base_case="b")
        E.same("static settings", s.get_settings() == {"order": 1, "base_case": "b"})
        m = lcm.ModalCase("m", 7)
        E.same("modal settings", m.n_modes == 7 and m.get_settings()["n_modes"] == 7 and m.use_load_as_mass is False and m.get_settings()["algorithm"] == "eigen")
        m.use_load_as_mass = True
        E.same("mass source flag", m.use_load_as_mass is True and m.get_settings()["use_load_as_mass"] is True)
        h = lcm.TimeHistoryCase("h")
        h.use_direct_time_integration(f1, f2)
        st = h.get_settings()
        E.same("integration settings", st["algorithm"] == "direct_time_integration" and sorted(st["params"].keys()) == ["damping_ratio", "step_size"])
        E.eq("integration parameters", [st["params"]["step_size"], st["params"]["damping_ratio"]], [f1, f2])
    E.run("settings", set_, functions=FUNCTIONS)
