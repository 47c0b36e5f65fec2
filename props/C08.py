"""End releases: static condensation gives the exact Schur complement, released end forces vanish, condensed loads agree.
All 4096 release patterns."""
import itertools
from vc.api import *
from props.C05 import beams
from props.C06 import full
import spec

FUNCTIONS = ["core.fe_model.element.line.%s.static_condensate/static_condensate_f/releases" % x for x in ("beam.Beam", "simple_beam.SimpleBeam")] + \
            ["core.fe_model.model.Model.set_beam_releases/get_beam_condensated_matrix/get_beam_condensated_f/get_beam_K(condensate=True)"]
BLOCKS = [(0, 6), (3, 9), (1, 5, 7, 11), (2, 4, 8, 10)]
ASSUME = ["the release patterns are a complete finite case split (all 4096 of them, for both beam types)"]
BOUNDED = "run-time contract: random patterns (thorough: all 4096)"
RT_N = {"quick": 300, "thorough": 5000}
PARALLEL = True     # the units are independent


def patterns():
    """those within one uncoupled action, each a unit of its own; then all others, 64 to a unit"""
    one = list(dict.fromkeys(c for b in BLOCKS for k in range(len(b) + 1) for c in itertools.combinations(b, k)))
    rest = [p for p in itertools.chain(*[itertools.combinations(range(12), k) for k in range(13)]) if p not in set(one)]
    return [[p] for p in one] + [rest[i::64] for i in range(64)]


def elim(K, f, rel):
    """elimination in descending order (the code goes up); None for the load when a released mechanism is loaded"""
    n = 12
    ok = True
    for p in sorted(rel, reverse=True):
        if sym.coerce(K[p][p]).p == {}:
            ok = False
            continue
        w = [K[p][j] / K[p][p] for j in range(n)]
        col = [K[i][p] for i in range(n)]
        fp = f[p]
        for i in range(n):
            f[i] = f[i] - w[i] * fp
        for i in range(n):
            for j in range(n):
                K[i][j] = K[i][j] - col[i] * w[j]
    return K, (f if ok else None)


def contracts(E):
    n = load("hyperstatic.core.fe_model.node")
    m = load("hyperstatic.core.fe_model.model")
    make, q = beams()
    L = var("L", pos=True)
    p = V("px", "py", "pz")
    f0 = vec("f", 12)
    for kind, mk in make.items():
        def case(rel):
            return {"kind": kind, "p": p, "q": [p[0] + L, p[1], p[2]], "s": q, "rel": list(rel), "f": list(f0)}

        def c(E, rels):
            E.assume(q["mu"] > -1)
            E.assume(L > sym.Fraction(1, 10 ** 6))
            G = q["E"] / 2 / (1 + q["mu"])
            for k, rel in enumerate(rels):
                E.case(case(rel))
                bm = mk(n.Node("I", *p), n.Node("J", p[0] + L, p[1], p[2]))
                E.same("initially nothing is released", len(bm.releases) == 12 and not any(bool(x) for x in bm.releases))
                if rel:
                    bm.releases = [i not in rel for i in range(12)]      # an earlier pattern leaves no trace
                bm.releases = [i in rel for i in range(12)]
                E.same("releases stored", [bool(x) for x in bm.releases] == [i in rel for i in range(12)])
                K0 = bm.integrate_K()
                before = dense(K0).copy()
                C = dense(bm.static_condensate(K0))
                W, f = elim(full(spec.stiffness(q["E"], G, q["A"], q["I2"], q["I3"], q["J"], L)).tolist(), list(f0), rel)
                E.eq(f"Schur complement, releases {rel}", C, npo.array(W, dtype=object))
                E.eq(f"released forces vanish, releases {rel}", [x for i in rel for x in list(C[i, :]) + list(C[:, i])], [0] * (24 * len(rel)))
                E.eq("the given matrix is not modified", dense(K0), before)
                if f is not None:
                    fin = npo.array(f0).reshape(12, 1)
                    r = bm.static_condensate_f(fin, K0)
                    E.eq("the given loads are not modified", fin.ravel(), f0)
                    E.eq(f"condensed end loads, releases {rel}", npo.asarray(r).ravel(), f)
                    E.same("condensed load shape", npo.asarray(r).size == 12)
        for j, rels in enumerate(patterns()):
            E.run(f"{kind} releases {','.join(map(str, rels[0])) or 'none'}" if len(rels) == 1 else f"{kind} releases, group {j}", lambda E, rels=rels: c(E, rels), case_of=case(rels[0]), functions=FUNCTIONS, spaths=1)

    def c(E):
        E.assume(q["mu"] > -1)
        E.assume(L > sym.Fraction(1, 10 ** 6))
        M = m.Model()
        M.add_node("I", *p)
        M.add_node("J", p[0] + L, p[1], p[2])
        M.add_simple_beam("B", "I", "J", q["E"], q["mu"], q["A"], q["I2"], q["I3"], q["J"], q["rho"])
        M.add_simple_beam("C", "I", "J", q["E"], q["mu"], q["A"], q["I2"], q["I3"], q["J"], q["rho"])
        rel = (0, 4, 5, 9, 11)
        names = ["u1i", "u2i", "u3i", "r1i", "r2i", "r3i", "u1j", "u2j", "u3j", "r1j", "r2j", "r3j"]
        M.set_beam_releases("B", u1j=True, r2i=True, r1j=True)
        M.set_beam_releases("B", **{names[i]: True for i in rel})
        K = full(spec.stiffness(q["E"], q["E"] / 2 / (1 + q["mu"]), q["A"], q["I2"], q["I3"], q["J"], L))
        W, f = elim(K.tolist(), list(f0), rel)
        E.eq("Model.get_beam_condensated_matrix", dense(M.get_beam_condensated_matrix("B", M.get_beam_K("B"))), npo.array(W, dtype=object))
        E.eq("Model.get_beam_K(condensate)", dense(M.get_beam_K("B", condensate=True)), npo.array(W, dtype=object))
        fin = npo.array(f0)
        E.eq("Model.get_beam_condensated_f", npo.asarray(M.get_beam_condensated_f("B", fin)).ravel(), f)
        E.eq("the given loads are not modified", fin, f0)
        E.eq("other beam unaffected", dense(M.get_beam_condensated_matrix("C", M.get_beam_K("C"))), K)
        E.eq("other beam's loads unaffected", npo.asarray(M.get_beam_condensated_f("C", npo.array(f0))).ravel(), f0)
        M.set_beam_releases("B")
        E.eq("releases can be removed", dense(M.get_beam_condensated_matrix("B", M.get_beam_K("B"))), K)
    E.run("Model releases", c, case_of={"kind": "SimpleBeam", "p": p, "q": [p[0] + L, p[1], p[2]], "s": q, "rel": [0, 4, 5, 9, 11], "f": list(f0)}, functions=FUNCTIONS)
