"""Load case settings: reported as created or last set, by the case and by the assembly; what is handed out is a copy."""
from vc.api import *
from vc import idxset, sym
from scen import settings
from props.C28 import compare

L = "core.fe_model.load."
FUNCTIONS = [L + "loadcase." + k for k in ("StaticCase.__init__/order/get_settings", "ModalCase.__init__/n_modes/use_load_as_mass/get_settings", "ResponseSpectrumCase.__init__/get_settings",
                                           "TimeHistoryCase.__init__/use_modal_decomposition/use_direct_time_integration/get_settings/get_max_min_step")] + \
    [L + "LoadCase.name/get_max_min_step", "core.fe_model.assembly.Assembly.get_loadcase_setting/get_max_min_step"]
ASSUME = ["names are opaque strings", "numbers of curve steps: one, two and three patterns with curves of arbitrary length up to 1e20 (the code's initial minimum); more patterns at run time"]
PARALLEL = True     # the units are independent
RT_N = {"quick": 100, "thorough": 3000}


class W:
    def __init__(self, n):
        M = "hyperstatic.core.fe_model."
        self.lc, self.pat, self.model, self.asm = load(M + "load.loadcase"), load(M + "load.pattern"), load(M + "model"), load(M + "assembly")
        self.n = n
        self.array = np.array

    def length(self, i):
        return self.n[i]

    def curve(self, i):
        f = lambda r: idxset.LVec(self.n[i], lambda j: fn("crv", S.const(i), S.const(r), j))
        return load("hyperstatic.common.curve").Curve(f"c{i}", f(0), f(1)).to_array()

    def max(self, xs):
        return sym.smax(*xs) if len(xs) > 1 else xs[0]

    def min(self, xs):
        return sym.smin(*xs) if len(xs) > 1 else xs[0]


def contracts(E):
    vals = [var(f"v{i}", pos=True) for i in range(settings.NPAR)]
    n = [var(f"n{i}", pos=True) for i in range(3)]
    for nm, f in settings.SCENES.items():
        def c(E):
            if nm == "steps":
                for k in n:
                    E.assume(k < 10 ** 20)
            for label, got, want in f(W(n), vals):
                compare(E, label, got, want)
        E.run(nm, c, case_of={"k": nm, "v": vals, "n": [3, 5, 2, 4]}, functions=FUNCTIONS, hints=[{f"v{i}": i % 7 + 1 for i in range(settings.NPAR)} | {"n0": 3, "n1": 5, "n2": 2}])
