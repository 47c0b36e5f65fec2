"""the same scenarios with random numbers on the unmodified source"""
from rt.common import *
from rt.C28 import plain
from scen import settings
from hyperstatic.core.fe_model import model, assembly
from hyperstatic.core.fe_model.load import loadcase, pattern
import types
CORNERS = [{"k": k, "v": list(range(1, settings.NPAR + 1)), "n": n} for k in settings.SCENES for n in ([3, 5, 2, 4], [2, 2, 2, 2], [7, 1, 1, 9], [1, 8, 4, 1], [300, 250, 1200, 400])]


def gen(rng, i):
    return {"k": list(settings.SCENES)[i % len(settings.SCENES)], "v": [rpos(rng) for _ in range(settings.NPAR)], "n": [rng.randint(1, rng.choice([12, 12, 3000])) for _ in range(4)]}


def same(got, want):
    if isinstance(want, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    if isinstance(want, (bool, type(None))):
        return got is want
    return got == want


def check(c):
    w = types.SimpleNamespace(lc=loadcase, pat=pattern, model=model, asm=assembly, array=np.array, max=max, min=min, length=lambda i: c["n"][i], curve=lambda i: np.ones((2, c["n"][i])))
    for label, got, want in settings.SCENES[c["k"]](w, c["v"]):
        if not same(got, want):
            return c["k"] + "/" + label.replace(" ", "-"), f"{label}: {got} instead of {want}"
