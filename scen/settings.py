"""Scenarios over the settings of load cases, run by the contracts (symbolic numbers) and by the run-time contracts (concrete)."""
NPAR = 12
KEYS = {"StaticCase": ["base_case", "order"], "ModalCase": ["algorithm", "base_case", "mass_source", "n_modes", "use_load_as_mass"],
        "ResponseSpectrumCase": ["dir_combo", "modal_case", "mode_combo", "spectrum"], "TimeHistoryCase": ["algorithm", "base_case", "params"]}


def both(w, c):
    """settings as the case and as the assembly report them"""
    other = w.lc.StaticCase("other", 3, "zz")
    a = w.asm.Assembly(w.model.Model(), [other, c, w.lc.ModalCase("third", 77)])
    return c.get_settings(), a.get_loadcase_setting(c.name)


def static(w, v):
    for o in (1, 2, 3):
        for base in (None, "b"):
            c = w.lc.StaticCase("c", o, base)
            yield "name", c.name, "c"
            yield "order", c.order, o
            for s in both(w, c):
                yield "settings", [sorted(s), s["order"], s["base_case"]], [KEYS["StaticCase"], o, base]
            for o2 in (3, 1, 2):
                c.order = o2
                yield "last order counts", [c.order, both(w, c)[0]["order"], both(w, c)[1]["order"]], [o2] * 3
                for bad in (0, 4, -1, 1.5, 2.5):
                    try:
                        c.order = bad
                        yield "invalid order accepted", bad, None
                    except Exception:
                        pass
                    yield "rejected order changes nothing", [c.order, c.get_settings()["order"]], [o2, o2]
            yield "base case stays", c.get_settings()["base_case"], base
    c = w.lc.StaticCase("c")
    yield "defaults", [c.order, c.get_settings()["base_case"]], [1, None]
    c = w.lc.StaticCase("c", base_case="q")
    yield "base case only", [c.order, c.get_settings()["base_case"]], [1, "q"]


def modal(w, v):
    for n in (v[0], 1, 12):
        for base in (None, "b"):
            c = w.lc.ModalCase("c", n, base)
            yield "name", c.name, "c"
            yield "number of modes", c.n_modes, n
            for s in both(w, c):
                yield "keys", sorted(s), KEYS["ModalCase"]
                yield "number of modes in the settings", s["n_modes"], n
                yield "settings", [s["base_case"], s["algorithm"], s["mass_source"], s["use_load_as_mass"]], [base, "eigen", "mass", False]
            for b in (True, False, True):
                c.use_load_as_mass = b
                yield "use_load_as_mass", [c.use_load_as_mass] + [s["use_load_as_mass"] for s in both(w, c)], [b] * 3
                for s in both(w, c):
                    yield "the other settings stay", [s["base_case"], s["algorithm"], s["mass_source"]], [base, "eigen", "mass"]
            yield "number of modes stays", c.n_modes, n
    yield "no modes", w.lc.ModalCase("c", 0).n_modes, 0
    c = w.lc.ModalCase("c")
    yield "defaults", [c.n_modes, c.use_load_as_mass, c.get_settings()["base_case"]], [3, False, None]


def spectrum(w, v):
    sp = w.array([[v[0], v[1], v[2]], [v[3], v[4], v[5]]])
    for kw, want in (({}, ["srss", "cqc"]), ({"mode_combo": "cqc"}, ["cqc", "cqc"]), ({"dir_combo": "srss"}, ["srss", "srss"]), ({"dir_combo": "a", "mode_combo": "b"}, ["b", "a"])):
        c = w.lc.ResponseSpectrumCase("c", "m", sp, **kw)
        yield "name", c.name, "c"
        for s in both(w, c):
            yield "settings", [sorted(s), s["modal_case"], s["mode_combo"], s["dir_combo"]], [KEYS["ResponseSpectrumCase"], "m"] + want
            yield "spectrum", [list(r) for r in s["spectrum"]], [[v[0], v[1], v[2]], [v[3], v[4], v[5]]]
    c = w.lc.ResponseSpectrumCase("c", "m2", sp, "x", "y")
    yield "by position", [c.get_settings()[k] for k in ("modal_case", "mode_combo", "dir_combo")], ["m2", "x", "y"]


def history(w, v):
    for base in (None, "b"):
        c = w.lc.TimeHistoryCase("c", base) if base else w.lc.TimeHistoryCase("c")
        yield "name", c.name, "c"
        for s in both(w, c):
            yield "initially", [sorted(s), s["algorithm"], s["params"], s["base_case"]], [KEYS["TimeHistoryCase"], None, {}, base]
        c.use_modal_decomposition("mod")
        for s in both(w, c):
            yield "modal decomposition", [s["algorithm"], s["params"], s["base_case"]], ["modal_decomposition", {"modal_case": "mod"}, base]
        c.use_direct_time_integration(v[0], v[1])
        for s in both(w, c):
            yield "direct integration", [sorted(s), s["algorithm"], sorted(s["params"]), s["base_case"]], [KEYS["TimeHistoryCase"], "direct_time_integration", ["damping_ratio", "step_size"], base]
            yield "parameters", [s["params"]["step_size"], s["params"]["damping_ratio"]], [v[0], v[1]]
            s["params"]["step_size"] = v[5]
            s["algorithm"] = "x"
        for s in both(w, c):
            yield "settings handed out are copies", [s["params"]["step_size"], s["params"]["damping_ratio"]], [v[0], v[1]]
            yield "settings handed out are copies (algorithm)", s["algorithm"], "direct_time_integration"
        c.use_direct_time_integration(step_size=v[2], damping_ratio=v[3])
        yield "last parameters count", [c.get_settings()["params"][k] for k in ("step_size", "damping_ratio")], [v[2], v[3]]
        c.use_modal_decomposition("mod2")
        yield "last algorithm counts", [c.get_settings()[k] for k in ("algorithm", "params")], ["modal_decomposition", {"modal_case": "mod2"}]


def steps(w, v):
    for k in (1, 2, 3):
        c = w.lc.TimeHistoryCase("c")
        for i in range(k):
            c.add_pattern(w.pat.LoadPattern(f"p{i}"), v[i], w.curve(i))
        a = w.asm.Assembly(w.model.Model(), [w.lc.StaticCase("other"), c])
        n = [w.length(i) for i in range(k)]
        for r in (c.get_max_min_step(), a.get_max_min_step("c")):
            yield "two numbers", len(r), 2
            yield "longest and shortest curve", list(r), [w.max(n), w.min(n)]
    for f in ([0, v[0]], [v[0], 0]):
        c = w.lc.TimeHistoryCase("c")
        for i in range(2):
            c.add_pattern(w.pat.LoadPattern(f"p{i}"), f[i], w.curve(i))
        n = [w.length(i) for i in range(2)]
        yield "patterns with factor zero count", list(c.get_max_min_step()), [w.max(n), w.min(n)]
    c = w.lc.StaticCase("s")
    for i in range(2):
        c.add_pattern(w.pat.LoadPattern(f"p{i}"), v[i])
    yield "cases without curves have two steps", list(c.get_max_min_step()), [2, 2]


SCENES = {"static": static, "modal": modal, "spectrum": spectrum, "history": history, "steps": steps}
