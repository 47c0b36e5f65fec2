"""the same Api scenarios with random numbers against the same model built directly, and random histories of valid and refused calls"""
from rt.common import *
from scen import apiflow
from rt import kern
try:
    kern.install()
    KERNELS = True
except RuntimeError:
    KERNELS = False
import hyperstatic.core as core
from hyperstatic.core.fe_model import model, assembly
from hyperstatic.core.fe_model.load import loadcase, pattern
import logging, pickle, tempfile, shutil, types
logging.disable(logging.CRITICAL)
CORNERS = [{"k": k, "v": [(i * 7 + 3) % 11 + 1 for i in range(apiflow.NPAR)]} for k in apiflow.SCENES]


def gen(rng, i):
    return {"k": list(apiflow.SCENES)[i % len(apiflow.SCENES)], "v": [rpos(rng) for _ in range(apiflow.NPAR)]}


def world():
    def saved(wp):
        with open(os.path.join(wp, ".asb"), "rb") as f:
            return pickle.load(f)

    def state(api):
        r = api.get_node_restraints()
        return [api.get_node_names(), api.get_beam_names(), api.get_shell_names(), {k: [bool(x) for x in v] for k, v in r.items()}], [list(api.get_node_location(n)) for n in api.get_node_names()]
    def touch(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()
    return types.SimpleNamespace(core=core, model=model, asm=assembly, lc=loadcase, pat=pattern, zeros=np.zeros, dense=dense, saved=saved, state=state, kernels=KERNELS, touch=touch, listing=lambda p: sorted(os.listdir(p)))


class guard:
    """deletions by the code under test reach the scratch folder only; anything else is refused"""
    NAMES = [(shutil, "rmtree"), (os, "remove"), (os, "unlink"), (os, "rmdir"), (os, "removedirs"), (os, "rename"), (os, "replace")]

    def __init__(self, root):
        self.root = os.path.realpath(root)

    def __enter__(self):
        self.old = [getattr(m, n) for m, n in self.NAMES]
        busy = []

        def wrap(f, n):
            def g(p, *a, **k):
                if not busy and not os.path.realpath(p).startswith(self.root + os.sep):
                    raise AssertionError(f"{n}({p!r}) outside the work folder")
                busy.append(1)
                try:
                    return f(p, *a, **k)
                finally:
                    busy.pop()
            return g
        for (m, n), f in zip(self.NAMES, self.old):
            setattr(m, n, wrap(f, n))

    def __exit__(self, *a):
        for (m, n), f in zip(self.NAMES, self.old):
            setattr(m, n, f)


def plain(x):
    return isinstance(x, (bool, str, int, type(None))) or isinstance(x, dict) and all(plain(v) or isinstance(v, str) for v in x.values()) or isinstance(x, (list, tuple)) and all(plain(y) for y in x)


def run(c):
    for label, got, want in apiflow.SCENES[c["k"]](world(), [float(x) for x in c["v"]]):
        key = c["k"] + ": " + label
        if plain(want):
            if isinstance(want, (bool, type(None))) and got is not want or got != want:
                return (key, f"{got!r} instead of {want!r}")
        else:
            r = expect(key, got, want)
            if r:
                return r


def check(c):
    if any(not (1e-3 < x < 1e4) for x in c["v"]):
        return None
    d, cwd = tempfile.mkdtemp(prefix="api_"), os.getcwd()
    try:
        os.chdir(d)
        with guard(d):
            return run(c)
    except Exception as e:
        return ("raised", f"{c['k']}: {type(e).__name__}: {e}")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
