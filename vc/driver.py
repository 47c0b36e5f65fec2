"""Runs one property: contracts over the instrumented real source (engine), replay of counterexamples
and run-time contracts on the unmodified source under CPython, verdict, evidence."""
import importlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"

BASE_ASSUMPTIONS = [
    "machine floats of the verified code are treated as exact reals (decimal literals as the decimals written); rounding is only exercised by the run-time contracts",
    "numpy / scipy primitives satisfy the contracts written in vc/shim_np.py and vc/shim_sp.py",
    "the source-to-source instrumentation of vc/loader.py preserves meaning (it replaces literals, '/', displays, builtins and adds hooks to for loops; cross-checked by replaying one concrete input per verified path on the unmodified source)",
]
TRUSTED = ["vc/sym.py exact polynomial normaliser", "vc/engine.py path explorer", "z3 %s", "vc/shim_np.py, vc/shim_sp.py (assumed contracts of numpy/scipy)",
           "CPython 3.12 executing the instrumented source"]


def known(prop):
    out = {}
    fn = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn, encoding="utf-8"):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Worker:
    """run-time contracts on the unmodified source, in a scratch directory"""

    def __init__(self, prop, seed):
        self.prop, self.seed = prop, seed

    def call(self, req, timeout, module="rt.worker"):
        scratch = tempfile.mkdtemp(prefix="vcrt_")
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "LC_ALL")}
        env.update(PYTHONPATH=os.pathsep.join([os.path.join(ROOT, "stubs"), REPO, ROOT]), PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR=scratch, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   VERIF_REPO=REPO, TMPDIR=scratch)
        out = os.path.join(scratch, "out.json")
        req = dict(req, prop=self.prop, seed=self.seed, out=out)
        try:
            p = subprocess.run([PY, "-m", module], input=json.dumps(req), text=True, capture_output=True,
                               cwd=scratch, env=env, timeout=timeout)
            if os.path.exists(out):
                return json.load(open(out))
            return {"error": (p.stderr or p.stdout)[-2000:]}
        except subprocess.TimeoutExpired:
            return {"error": f"time limit {timeout}s", "timeout": True}
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


def contracts_on_numbers(w, E, tier, limit, fail):
    """the contracts executed with numbers on the unmodified source: first on the verifier's counterexamples, then on drawn values"""
    off = {o.name.split(": ")[0] for o in E.obls if not o.numeric}
    todo = [o for o in E.obls if o.status != "discharged" and o.numeric]
    if not todo:
        return {}
    targets, seen = [], set()
    for o in todo:
        if o.values and o.name not in seen:
            seen.add(o.name)
            targets.append({"contract": o.name.split(": ")[0], "values": o.values})
    limit = min(limit, 120 if tier == "quick" else 600)
    r = w.call({"tier": tier, "targets": targets[:30], "n": 40 if tier == "quick" else 300, "seconds": 30, "limit": limit}, limit + 60, "rt.numeric")
    if r.get("error"):
        return {"error": r["error"][-300:]}
    raised = {o.name.split(": ")[0] for o in E.obls if o.backend == "execution"}
    for f in r.get("failures", []):
        if f["contract"] in off or (f["kind"] == "raised" and f["contract"] not in raised):
            continue
        fail("contract:" + f["contract"].replace(" ", "_"), f"{f['name']}: {f['msg']}", {"contract": f["contract"], "values": f["values"]},
             f"{f['contract']}: {f['name']} | executed on the unmodified source")
    runs = r.get("runs", {})
    return {"available": r.get("available", False), "trials": sum(x.get("done", 0) for x in runs.values()), "checks": sum(x.get("checked", 0) for x in runs.values()),
            "contracts_without_numeric_meaning": sorted(k for k, x in runs.items() if x.get("abstract"))[:20]}


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, ROOT)
    replay_path = os.path.join("evidence", f"{prop}.replay.json")
    try:
        os.remove(os.path.join(ROOT, replay_path))
    except OSError:
        pass
    from . import engine
    import z3
    E = engine.Engine(seed=seed, tier=tier, budget=240 if tier == "quick" else 1500)
    spec = importlib.import_module("props." + prop)
    err = ""
    # a loop of the code that never ends (or eats the memory) on symbolic values must not leave the check without an answer
    def expired(*_):
        raise engine.Stop("time limit of the symbolic execution")
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    signal.signal(signal.SIGALRM, expired)
    signal.setitimer(signal.ITIMER_REAL, 250 if tier == "quick" else 1600, 5)
    try:
        try:
            if spec.__dict__.get("PARALLEL"):
                E.parallel(spec.contracts, (240 if tier == "quick" else 1550) - (time.time() - t0))
            else:
                spec.contracts(E)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except (Exception, engine.Stop, engine.Infeasible) as e:
        err = f"{type(e).__name__}: {e}"
        E.frames = []
        E._record("contract setup", "unknown", "engine", 0.0, detail=err + engine._where(e))
        if verbose:
            traceback.print_exc()
    t_sym = time.time() - t0
    kn = known(prop)
    w = Worker(prop, seed)
    viol, knownhits, notes = [], {}, []

    def fail(key, msg, case, obl=None):
        for k in kn:
            if key == k:
                knownhits.setdefault(k, msg)
                return
        viol.append({"key": key, "message": msg, "case": case, "obligation": obl})

    # counterexamples of refuted obligations, replayed on the unmodified source
    ref = [o for o in E.obls if o.status == "refuted"]
    cases, owners = [], []
    for o in ref:
        if o.case is not None:
            cases.append(o.case)
            owners.append(o)
    conc = list(E.path_cases)[: (60 if tier == "quick" else 300)]
    replayed = {"confirmed": 0, "known": 0, "not_reproduced": 0, "path_inputs": 0}
    if cases or conc:
        r = w.call({"mode": "cases", "cases": cases + conc}, 240)
        if "error" in r:
            notes.append("replay: " + r["error"][-400:])
            r = {"results": [None] * 0}
        for k, res in enumerate(r.get("results", [])):
            if k < len(cases):
                if res is None:
                    replayed["not_reproduced"] += 1
                    owners[k].status = "unknown"
                    owners[k].detail = "refutation not reproduced on the unmodified source: " + owners[k].detail
                elif res[0] == "__skip__":
                    owners[k].case = None
                else:
                    replayed["confirmed"] += 1
                    fail(res[0], res[1], cases[k], owners[k].name + " | " + owners[k].detail)
            else:
                replayed["path_inputs"] += 1
                if res is not None and res[0] != "__skip__":
                    fail(res[0], res[1], conc[k - len(cases)], "run-time contract on the input of a verified path")
    # run-time contracts over generated inputs
    n = spec.__dict__.get("RT_N", {"quick": 300, "thorough": 5000})[tier]
    tl = 150 if tier == "quick" else 900
    rr = w.call({"mode": "gen", "n": n, "tier": tier, "limit": tl - 25}, tl + 120)
    if "error" in rr:
        notes.append("run-time contracts: " + rr["error"][-1500:])
        if rr.get("timeout"):
            pass
    for f in rr.get("failures", []):
        fail(f["key"], f["msg"], f["case"], "run-time contract")
    numeric = {}
    if not viol and any(o.status != "discharged" for o in E.obls):
        numeric = contracts_on_numbers(w, E, tier, max(20, (330 if tier == "quick" else 2000) - (time.time() - t0)), fail)
    if not viol and any(o.status != "discharged" for o in E.obls) and "error" not in rr:
        # something is not proved: look harder for a failing input
        left = (520 if tier == "quick" else 2400) - (time.time() - t0)
        if left > 40:
            r2 = Worker(prop, seed + 7919).call({"mode": "gen", "n": n * 12, "tier": tier, "limit": min(left, 240 if tier == "quick" else 1200)}, left + 60)
            for f in r2.get("failures", []):
                fail(f["key"], f["msg"], f["case"], "run-time contract")
            rr["n"] = rr.get("n", 0) + r2.get("n", 0)
            rr["distinct"] = rr.get("distinct", 0) + r2.get("distinct", 0)
    # refuted obligations whose counterexample is abstract (no concrete input)
    abstract = [o for o in E.obls if o.status == "refuted" and o.case is None]
    undecided = [o for o in E.obls if o.status == "unknown"]
    unexpl = []
    for o in list(undecided):
        if o.failed and o.abstract and o.case is None and o.feasible:      # the goal was evaluated and is not an identity
            undecided.remove(o)
            unexpl.append(o)
    for o in abstract:
        if o.known and o.known in kn:
            knownhits.setdefault(o.known, o.detail)
        elif o.backend.startswith("execution") or not o.abstract or not o.feasible:
            o.status = "unknown"
            undecided.append(o)
        else:
            unexpl.append(o)
    c = E.counts()
    wall = time.time() - t0
    proved_all = c["unknown"] == 0 and c["refuted"] == 0 and c["discharged"] > 0
    level = spec.__dict__.get("LEVEL", "proof")
    by = {}
    for o in E.obls:
        if o.status == "discharged":
            by[o.backend] = by.get(o.backend, 0) + 1
    nb = sum(1 for o in E.obls if "bounded" in o.backend)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": len(E.obls), "discharged": c["discharged"],
            "checker_cmd": f"python3-vt check.py {prop} --tier {tier}",
            "trusted_base": [t % z3.get_version_string() if "%s" in t else t for t in TRUSTED] + list(spec.__dict__.get("TRUSTED", [])),
            "functions_under_contract": sorted(E.functions),
            "discharged_by_backend": by,
            "obligations_over_a_bounded_domain": nb,
            "undecided": [f"{o.name} [{o.path}] {o.detail}"[:300] for o in undecided][:40],
            "refuted": [f"{o.name} {o.detail}"[:300] for o in E.obls if o.status == "refuted"][:20],
            "solver_calls": E.calls, "solver_time_s": round(E.solver_time, 2), "symbolic_time_s": round(t_sym, 2),
            "paths": E.paths, "paths_with_a_witness_input": E.covered, "paths_without_witness": E.uncovered[:10],
            "counterexample_replay": replayed, "contracts_executed_on_numbers": numeric,
            "evaluations": rr.get("n", 0), "distinct_nontrivial": rr.get("distinct", 0), "rule": rr.get("rule", ""),
            "samples": rr.get("samples", [])[:3],
            "obligation_samples": [f"{o.name}: {o.status} ({o.backend}, {o.time:.3f}s)" for o in E.obls[:60]],
            "explanation": spec.__dict__.get("EXPLAIN", (spec.__doc__ or "").strip()),
            "bounded_stand_in": spec.__dict__.get("BOUNDED", "run-time contracts over generated inputs (counted under evaluations, never as proved)"),
        },
        "assumptions": BASE_ASSUMPTIONS + list(spec.__dict__.get("ASSUME", [])) + E.assumptions,
        "wall_s": round(wall, 2), "violations": len(viol) + len(unexpl),
    }
    if notes:
        ev["coverage"]["notes"] = notes
    if knownhits:
        ev["coverage"]["known_findings"] = knownhits
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if verbose:
        for o in E.obls:
            if verbose and (o.status != "discharged" or "-vv" in argv):
                print(f"  {o.status:10} {o.name} [{o.backend}] {o.time:.2f}s {o.detail[:300]} path={o.path[:100]} case={str(o.case)[:300]}")
        print(json.dumps({k: v for k, v in ev["coverage"].items() if k in ("discharged_by_backend", "discharged", "discharged_by_backend", "solver_time_s", "paths_without_witness", "counterexample_replay", "notes", "known_findings")}, indent=1, ensure_ascii=False)[:3000])
    print(f"{prop}: {c['discharged']}/{len(E.obls)} obligations discharged, {c['unknown']} undecided, {E.paths} paths "
          f"({E.covered} witnessed), {rr.get('n', 0)} run-time evaluations, {wall:.1f}s")
    for k, msg in knownhits.items():
        print(f"KNOWN-FINDING: property={prop} {kn[k]}")
    for o in undecided[:8]:
        print(f"undecided (covered by the bounded run-time contract only): {o.name}: {o.detail[:160]}")
    for x in notes:
        print("note:", x[-600:])
    if viol or unexpl:
        with open(os.path.join(ROOT, replay_path), "w") as f:
            json.dump({"property": prop, "violations": viol[:20],
                       "failed_obligations": [{"name": o.name, "path": o.path, "verifier_output": o.detail} for o in unexpl]},
                      f, indent=1, ensure_ascii=False)
        if viol:
            v = viol[0]
            print(f"violated: {v['key']}: {v['message'][:400]}")
            print(f"VIOLATION property={prop} replay={replay_path}")
        else:
            print(f"violated obligation: {unexpl[0].name}: {unexpl[0].detail[:300]}")
            print(f"VIOLATION property={prop} replay={replay_path} no-failing-input-found")
        return 1
    if not E.obls and "error" in rr:
        print("no answer: neither obligations nor run-time evaluations")
        return 2
    if "error" in rr and c["discharged"] == 0:
        print("no answer")
        return 2
    return 0
