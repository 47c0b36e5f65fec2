"""the shell kernels of the tree under test, compiled from its C sources (the committed .so files of an earlier build are not used)"""
import atexit, ctypes, os, re, shutil, subprocess, sys, tempfile, types
import numpy as np
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = {"metaDKT": "plates/metaDKT", "metaDKQ": "plates/metaDKQ", "metaGQ12": "membranes/GQ12", "metaT9": "membranes/T9"}
DONE = {}
CC = shutil.which("clang") or "gcc"


def install():
    if DONE:
        return DONE
    tmp = tempfile.mkdtemp(prefix="kern")
    atexit.register(shutil.rmtree, tmp, True)
    jobs = []
    for nm, d in SRC.items():
        d = os.path.join(REPO, "hyperstatic/core/fe_model/meta", d)
        so = os.path.join(tmp, nm + ".so")
        jobs.append((nm, d, so, subprocess.Popen([CC, "-O0", "-w", "-shared", "-fPIC", "-o", so, os.path.join(d, "wrapped_code_0.c"), "-lm"])))
    for nm, d, so, p in jobs:
        if p.wait():
            raise RuntimeError("kernel does not compile: " + nm)
        pyx = open(os.path.join(d, nm + ".pyx")).read()
        args = [a.split()[-1] for a in re.search(r"def\s+autofunc_c\s*\(([^)]*)\)", pyx).group(1).split(",")]
        passed = [a.strip() for a in re.search(r"^\s+autofunc\(([^)]*\.data)\)", pyx, re.M).group(1).split(",")][:-1]
        shape = tuple(int(x) for x in re.search(r"np\.empty\(\((\d+),\s*(\d+)\)\)", pyx).groups())
        DONE[nm] = make(ctypes.CDLL(so).autofunc, args, passed, shape)
        m = types.ModuleType(nm)
        m.autofunc_c = DONE[nm]
        sys.modules[nm] = m
    return DONE


def make(f, args, passed, shape):
    f.argtypes, f.restype = [ctypes.c_double] * len(passed) + [ctypes.c_void_p], None

    def autofunc_c(*a, **k):
        v = dict(zip(args, a), **k)
        out = np.empty(shape)
        f(*[float(v[p]) for p in passed], out.ctypes.data)
        return out
    return autofunc_c
