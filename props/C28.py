"""Api: every building call has the effect of the model operation it stands for; refused requests return False / None and change nothing."""
from vc.api import *
from scen import apiflow
import types

C = "core.Api."
FUNCTIONS = [C + k for k in """__init__ save load clear_workspace add_node get_node_names get_node_location get_node_restraints set_nodal_mass add_isotropic_material add_beam_section_general add_beam_section_rectangle
add_beam_section_I add_beam_section_box add_beam_section_circle add_beam_section_pipe add_shell_section add_beam add_simple_beam get_beam_names get_beam_node_names get_beam_location set_beam_release add_shell get_shell_names
get_shell_node_names get_shell_location add_loadpattern set_nodal_restraint set_loadcase_nodal_restraint set_nodal_load get_nodal_load get_all_nodal_load set_beam_load_distributed set_beam_load_concentrated add_static_case
add_modal_case add_case_pattern assemble""".split()] + ["core.fe_model.assembly.Assembly.save"]
ASSUME = ["names are opaque strings: the proofs use fixed distinct names and hold for all renamings, numbers are arbitrary (positive where they are sizes or stiffnesses)",
          "the compiled shell kernels are not entered (adding a shell does not evaluate them)", "os, shutil and pickle act on a ghost file system: pickling stores and restores a deep copy of the object"]
PARALLEL = True     # the units are independent
RT_N = {"quick": 40, "thorough": 500}


class W:
    def __init__(self):
        M = "hyperstatic.core.fe_model."
        self.core, self.model, self.asm = load("hyperstatic.core"), load(M + "model"), load(M + "assembly")
        self.lc, self.pat = load(M + "load.loadcase"), load(M + "load.pattern")
        self.zeros = np.zeros

    def dense(self, x):
        return dense(x)

    kernels = False

    def touch(self, p):
        for i, ch in enumerate(p):
            if ch == "/":
                np.FS[p[:i]] = "<dir>"
        np.FS[p] = "x"

    def listing(self, p):
        return sorted(k[len(p) + 1:] for k in np.FS if isinstance(k, str) and k.startswith(p + "/"))

    def saved(self, wp):
        return np.FS[wp + "/.asb"]

    def state(self, api):
        r = api.get_node_restraints()
        return [api.get_node_names(), api.get_beam_names(), api.get_shell_names(), {k: [bool(x) for x in v] for k, v in r.items()}], [list(api.get_node_location(n)) for n in api.get_node_names()]


def plain(x):
    return isinstance(x, (bool, str, int, type(None))) or isinstance(x, dict) and all(plain(v) or isinstance(v, str) for v in x.values()) or isinstance(x, (list, tuple)) and all(plain(y) for y in x)


def compare(E, label, got, want):
    if plain(want):
        E.same(label, type(got) in (type(want), SList, SDict) and (list(got) if isinstance(got, list) else got) == want)
    else:
        E.eq(label, got, want)


def contracts(E):
    vals = [var(f"v{i}", pos=True) for i in range(apiflow.NPAR)]
    for nm, f in apiflow.SCENES.items():
        def c(E):
            for label, got, want in f(W(), vals):
                compare(E, label, got, want)
        E.run(nm, c, case_of={"k": nm, "v": vals}, functions=FUNCTIONS, hints=[{f"v{i}": i % 7 + 1 for i in range(apiflow.NPAR)}], merge=nm == "loads")
