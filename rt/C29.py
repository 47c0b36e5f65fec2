"""random stable frames through the Api: displacements, reactions, end forces and eigenvalues against an independent dense reference; re-assembly after a change, refused and failing analyses"""
from rt.C22 import *
from rt.C28 import guard
import hyperstatic.core as core
import logging
import scipy.linalg as sla
logging.disable(logging.CRITICAL)
CASE_SECONDS = 30
CORNERS = CORNERS + [{"k": "bad"}, {"k": "ok"}, dict(CORNERS[0], modes=5), dict(CORNERS[0], modes=4, case="Case.1 A")]
_gen = gen


def gen(rng, i):
    c = _gen(rng, i)
    c["modes"] = rng.choice([1, 2, 4, 5, 40])
    return c


def through(c, path):
    api = core.Api(path)
    ok = [api.add_node(n, *p) for n, p in c["nodes"]]
    for k, b in enumerate(c["beams"]):
        s = b["s"]
        if b["kind"] == "SimpleBeam":
            ok.append(api.add_simple_beam(b["name"], *b["ends"], s["E"], s["mu"], s["A"], s["I2"], s["I3"], s["J"], s["rho"]))
        else:
            ok += [api.add_isotropic_material("mat%d" % k, s["rho"], s["E"], s["mu"], 1e-5), api.add_beam_section_general("sec%d" % k, "mat%d" % k, s["A"], s["A"], s["A"], s["I2"], s["I3"], s["J"], 1.0, 1.0),
                   api.add_beam(b["name"], *b["ends"], "sec%d" % k)]
        if b.get("rel"):
            ok.append(api.set_beam_release(b["name"], **{END[r % 6] + "ij"[r // 6]: True for r in b["rel"]}))
    ok += [api.add_static_case(cname(c)), api.add_modal_case(near(cname(c)))]
    for p in c["pats"]:
        ok.append(api.add_loadpattern(p["name"]))
        ok += [api.set_nodal_load(p["name"], n, *v) for n, v in p["nodal"].items()]
        ok += [api.set_beam_load_distributed(p["name"], n, **dict(zip(["pi", "qi2", "qi3", "ti", "pj", "qj2", "qj3", "tj"], v))) for n, v in p["dist"].items()]
        ok += [api.set_beam_load_concentrated(p["name"], n, *v) for n, v in p["conc"].items()]
        ok.append(api.add_case_pattern(cname(c), p["name"], p["factor"]))
    ok += [api.set_nodal_restraint(n, *v) for n, v in c["restraints"].items()]
    ok += [api.set_loadcase_nodal_restraint(cname(c), n, *v) for n, v in (c.get("case_restraints") or {}).items()]
    ok.append(api.assemble())
    return api, ok


def check(c):
    path = tempfile.mkdtemp(prefix="c29_")
    try:
        with guard(path):
            return bad_flow(path) if c.get("k") == "bad" else flow(c if "nodes" in c else CORNERS[0], path)
    except Exception as e:
        return ("raised", f"{type(e).__name__}: {e}")
    finally:
        shutil.rmtree(path, ignore_errors=True)


def bad_flow(path):
    w = os.path.join(path, "w")
    api = core.Api(w)
    res = lambda: [api.result_get_nodal_displacement("A", "c"), api.result_get_nodal_reaction("A", "c"), api.result_get_all_nodal_displacement("c"), api.result_get_beam_end_force("b", "c"), api.result_get_beam_deformation("b", .5, "c")]
    sol = lambda: [api.solve_static("c"), api.solve_modal("c", 2)]
    api.add_node("A", 0, 0, 0)
    if sol() != [False, False] or any(r is not None for r in res()):
        return ("before-assembling", f"{sol()} {res()}")
    api.add_node("B", 1, 0, 0)
    api.add_simple_beam("b", "A", "B", 1, 0, 1, 1, 1, 1, 1)
    api.assemble()
    if sol() != [False, False] or any(r is not None for r in res()):
        return ("unknown-case", f"{sol()} {res()}")
    api.add_static_case("c")
    api.assemble()
    if any(r is not None for r in res()):
        return ("unsolved", str(res()))


def flow(c, path):
    c = dict(c, beams=[dict(b, rot=None) for b in c["beams"]])
    if bad(c):
        return None
    h = hids(c)
    n = 6 * len(c["nodes"])
    api, ok = through(c, os.path.join(path, "w"))
    if not all(x is True for x in ok):
        return ("calls", str(ok))

    def solved(c, tag):
        fx = fixed(c.get("case_restraints") or {}, h) or fixed(c["restraints"], h)
        free = [i for i in range(n) if i not in fx]
        K, f = ref_K(c), ref_f(c)
        if not free or np.linalg.cond(K[np.ix_(free, free)]) > 1e8:
            return "skip"
        if api.solve_static(cname(c)) is not True:
            return (tag + "solve_static", "not True")
        D = np.zeros(n)
        D[free] = np.linalg.solve(K[np.ix_(free, free)], f[free])
        sc = max(1e-30, np.max(np.abs(D)))
        al = api.result_get_all_nodal_displacement(cname(c))
        if list(al) != [a for a, _ in c["nodes"]]:
            return (tag + "all-displacements", str(list(al)))
        rea = K @ D - f
        fs = max(1e-30, np.max(np.abs(f)), np.max(np.abs(K)) * sc * 1e-3)
        for nm, i in h.items():
            w = D[6 * i:6 * i + 6]
            r = first(expect(tag + "displacement", np.array(api.result_get_nodal_displacement(nm, cname(c)), float) / sc, w / sc, rtol=1e-6, atol=1e-6), expect(tag + "all-displacement", np.array(al[nm], float) / sc, w / sc, rtol=1e-6, atol=1e-6),
                      expect(tag + "reaction", np.array(api.result_get_nodal_reaction(nm, cname(c)), float) / fs, rea[6 * i:6 * i + 6] / fs, rtol=1e-6, atol=1e-6))
            if r:
                return r
        for b in c["beams"]:
            L, T = length(bcase(c, b)), frame_of(c, b)
            Kc, w = schur(stiff(bcase(c, b)), b.get("rel") or [], eq_load(c, b))
            u = T @ D[dofs(c, b)]
            W = Kc @ u - w
            q = max(1e-30, np.max(np.abs(W)), np.max(np.abs(Kc)) * np.max(np.abs(u)) * 1e-3)
            r = expect(tag + "end-force", np.asarray(api.result_get_beam_end_force(b["name"], cname(c)), float) / q, W / q, rtol=1e-6, atol=1e-6)
            for x in (.3, 0, 1, .999, 1e-3, .123456789, 1 / 3):
                a, H = herm(L, x)
                r = r or expect(tag + "deformation", np.asarray(api.result_get_beam_deformation(b["name"], x, cname(c)), float)[:2] / sc, np.array([np.dot(a, u[[0, 6]]), np.dot(H, u[[1, 5, 7, 11]])]) / sc, rtol=1e-6, atol=1e-6)
            if r:
                return r
    r = solved(c, "")
    if r == "skip":
        return None
    if r:
        return r
    # a changed model counts once it is assembled again
    c2 = dict(c, beams=[dict(b, kind="SimpleBeam", s=dict(b["s"], E=b["s"]["E"] * 3)) for b in c["beams"]], pats=[dict(p, factor=-2 * p["factor"]) for p in c["pats"]])
    old = np.array(api.result_get_nodal_displacement(c["nodes"][-1][0], cname(c)), float)
    for b in c2["beams"]:
        s = b["s"]
        api.add_simple_beam(b["name"], *b["ends"], s["E"], s["mu"], s["A"], s["I2"], s["I3"], s["J"], s["rho"])
        if b.get("rel"):
            api.set_beam_release(b["name"], **{END[r % 6] + "ij"[r // 6]: True for r in b["rel"]})
    if not all(api.add_case_pattern(cname(c), p["name"], p["factor"]) is True for p in c2["pats"]):
        return ("factor-again", "")
    r = expect("not-yet-assembled", np.array(api.result_get_nodal_displacement(c["nodes"][-1][0], cname(c)), float), old, rtol=0, atol=0)
    if r:
        return r
    if api.assemble() is not True:
        return ("assemble-again", "")
    r = solved(c2, "changed-model-")
    if r and r != "skip":
        return r
    # only a number changed
    c3 = dict(c2, pats=[dict(p, factor=p["factor"] * .75) for p in c2["pats"]])
    if c3["pats"]:
        if not all(api.add_case_pattern(cname(c), p["name"], p["factor"]) is True for p in c3["pats"]) or api.assemble() is not True:
            return ("factor-again", "")
        r = solved(c3, "changed-factor-")
        if r and r != "skip":
            return r
    # modal analysis: the number of modes asked for
    fx = fixed(c["restraints"], h)
    free = [i for i in range(n) if i not in fx]
    k = min(c.get("modes", 2), len(free))
    if len(free) > 2 and k < len(free) and not any(b.get("rel") for b in c["beams"]):
        M = np.zeros((n, n))
        for b in c2["beams"]:
            s, T, d = b["s"], frame_of(c2, b), dofs(c2, b)
            D = np.kron(np.eye(2), np.diag([s["rho"] * s["A"] * length(bcase(c2, b)) / 2.] * 3 + [1e-12] * 3))
            M[np.ix_(d, d)] += T.T @ D @ T
        K = ref_K(c2)
        Kf, Mf = K[np.ix_(free, free)], M[np.ix_(free, free)]
        mu = sla.eigh(Mf, Kf, eigvals_only=True)[::-1][:k]
        if np.linalg.cond(Kf) < 1e7 and mu[-1] > 1e-6 * mu[0]:
            if api.solve_modal(near(cname(c)), k) is not True:
                return ("solve_modal", "not True")
            o = np.load(os.path.join(path, "w", near(cname(c)) + ".o.npy"))
            return expect("eigenvalues", 1 / o / mu, np.ones(k), rtol=1e-5) if len(o) == k else ("modes", f"{len(o)} instead of {k}")
