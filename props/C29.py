"""Api: analyses run on the model last assembled and results are those of the analysis; failures are reported as False / None."""
from vc.api import *
import inspect

C = "core.Api."
FUNCTIONS = [C + k for k in "assemble solve_static solve_modal result_get_nodal_reaction result_get_nodal_displacement result_get_all_nodal_displacement result_get_beam_end_force result_get_beam_deformation".split()]
ASSUME = ["solvers and result resolvers enter through their contracts (C21, C22, C23): recording stand-ins with the signatures of the real classes", "names are opaque strings"]
RT_N = {"quick": 25, "thorough": 400}
CASE_SECONDS = 30


def stub(real, log, fail):
    """stand-in for a solver / resolver class: checks the file, records the calls by parameter name"""
    class Stub:
        def __init__(self, *a, **k):
            b = inspect.signature(real.__init__).bind(self, *a, **k).arguments
            self._f = (b["workpath"], b["filename"])
            if b["workpath"] + "/" + b["filename"] not in np.FS:
                raise FileNotFoundError(b["filename"])

        def __getattr__(self, n):
            f = getattr(real, n)

            def g(*a, **k):
                b = inspect.signature(f).bind(self, *a, **k)
                b.apply_defaults()
                d = dict(b.arguments)
                d.pop("self")
                if fail:
                    raise ValueError("failure inside the analysis")
                log.append((n, self._f, d))
                return ("result", n, tuple(d.items()))
            return g
    return Stub


class Patched:
    def __init__(self, fail=False):
        self.core, self.log = load("hyperstatic.core"), []
        self.names = ("StaticSolver", "ModalSolver", "NodeResultResolver", "BeamResultResolver")
        self.fail = fail

    def __enter__(self):
        self.old = [getattr(self.core, n) for n in self.names]
        for n, o in zip(self.names, self.old):
            setattr(self.core, n, stub(o, self.log, self.fail))
        return self

    def __exit__(self, *a):
        for n, o in zip(self.names, self.old):
            setattr(self.core, n, o)


def contracts(E):
    x = V("x0", "x1", "x2")
    loc = var("loc", nonneg=True)
    base = {"v": x, "loc": loc}

    def prep(core, order="AB"):
        api = core.Api("w")
        for i, n in enumerate(order):
            api.add_node(n, x[0] + i, x[1], x[2])
        api.add_static_case("lc")
        api.add_modal_case("mc")
        return api

    def ok(E):
        with Patched() as p:
            api = prep(p.core)
            E.same("assembled", api.assemble() is True)
            E.same("saved in the work folder", "w/.asb" in np.FS and type(np.FS["w/.asb"]).__name__ == "Assembly")
            E.same("static analysis succeeds", api.solve_static("lc") is True)
            E.same("static analysis of that case", len(p.log) == 1 and p.log[0][0] in ("solve_linear", "solve") and p.log[0][1] == ("w", ".asb") and list(p.log[0][2].values())[0] == "lc")
            p.log.clear()
            E.same("modal analysis succeeds", api.solve_modal("mc", 7) is True)
            E.same("modal analysis of that case, as many modes as requested", len(p.log) == 1 and p.log[0][1] == ("w", ".asb") and list(p.log[0][2].values())[:2] == ["mc", 7])
            for call, want in ((lambda: api.result_get_nodal_displacement("B", "lc"), ("resolve_nodal_displacement", {"name": "B", "casename": "lc", "step": 1})),
                               (lambda: api.result_get_nodal_reaction("A", "lc"), ("resolve_nodal_reaction", {"name": "A", "casename": "lc", "step": 1})),
                               (lambda: api.result_get_beam_end_force("b", "lc"), ("resolve_beam_end_force", {"name": "b", "casename": "lc", "step": 1}))):
                p.log.clear()
                r = call()
                E.same(want[0], len(p.log) == 1 and p.log[0] == (want[0], ("w", ".asb"), want[1]))
                E.same(want[0] + ": returned as resolved", r == ("result", want[0], tuple(want[1].items())))
            p.log.clear()
            r = api.result_get_beam_deformation("b", loc, "lc")
            E.same("deformation", len(p.log) == 1 and p.log[0][0] == "resolve_beam_deformation" and p.log[0][1] == ("w", ".asb"))
            d = p.log[0][2]
            E.same("deformation of that beam and case", (d["name"], d["casename"], d["step"]) == ("b", "lc", 1))
            E.eq("at that location", d["loc"], loc)
            E.same("deformation returned", r[:2] == ("result", "resolve_beam_deformation"))
            p.log.clear()
            r = api.result_get_all_nodal_displacement("lc")
            E.same("all displacements: every node with its own", list(r) == ["A", "B"] and all(r[n] == ("result", "resolve_nodal_displacement", (("name", n), ("casename", "lc"), ("step", 1))) for n in "AB"))
    E.run("analyses and results", ok, case_of=dict(base, k="ok"), functions=FUNCTIONS, hints=[dict(x0=1, x1=2, x2=3, loc=0)])

    def bad(E):
        for nm, fail in (("before assembling", False), ("failing analysis", True)):
            with Patched(fail) as p:
                np.FS.clear()
                api = prep(p.core)
                if fail:
                    api.assemble()
                E.same(f"{nm}: analyses return False", [api.solve_static("lc"), api.solve_modal("mc", 3)] == [False, False])
                E.same(f"{nm}: results are None", [api.result_get_nodal_displacement("A", "lc"), api.result_get_nodal_reaction("A", "lc"), api.result_get_all_nodal_displacement("lc"), api.result_get_beam_end_force("b", "lc"),
                                                  api.result_get_beam_deformation("b", loc, "lc")] == [None] * 5)
    E.run("failures", bad, case_of=dict(base, k="bad"), functions=FUNCTIONS, hints=[dict(x0=1, x1=2, x2=3, loc=0)])
