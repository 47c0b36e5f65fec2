"""Runs the run-time contract of a property on the unmodified source (CPython, real numpy/scipy)."""
import contextlib
import importlib
import io
import json
import random
import signal
import sys
import time
import traceback
import warnings


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def run(mod, case):
    try:
        signal.alarm(getattr(mod, "CASE_SECONDS", 20))
        with contextlib.redirect_stdout(io.StringIO()):
            r = mod.check(case)
        return None if r is None else [str(r[0]), str(r[1])[:1500]]
    except CaseTimeout:
        return None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{f.filename.split('/repo/')[-1]}:{f.lineno}" for f in tb if "hyperstatic" in f.filename]
        fn = [f"{f.name}" for f in tb if "hyperstatic" in f.filename]
        key = f"exception-{type(e).__name__}" + ("-" + fn[-1] if fn else "")
        return [key, f"{type(e).__name__}: {e}" + (f" at {where[-1]}" if where else " in " + tb[-1].name + f":{tb[-1].lineno}")]
    finally:
        signal.alarm(0)


def main():
    req = json.load(sys.stdin)
    signal.signal(signal.SIGALRM, _alarm)
    warnings.simplefilter("ignore")
    import numpy
    numpy.seterr(all="ignore")
    mod = importlib.import_module("rt." + req["prop"])
    if req["mode"] == "cases":
        out = {"results": [run(mod, c) for c in req["cases"]]}
    else:
        rng = random.Random(req["seed"] * 7919 + 13)
        seen, fails, samples, n = set(), [], [], 0
        keys = {}
        t0 = time.time()
        def cases():
            for c in getattr(mod, "CORNERS", []):
                yield c
            for i in range(req["n"]):
                yield mod.gen(rng, i)
        for c in cases():
            if time.time() - t0 > req["limit"]:
                break
            n += 1
            seen.add(json.dumps(c, sort_keys=True))
            if len(samples) < 3 and n > 1:
                samples.append(c)
            r = run(mod, c)
            if r is not None and r[0] != "__skip__":
                keys[r[0]] = keys.get(r[0], 0) + 1
                if keys[r[0]] <= 2 and len(fails) < 60:
                    fails.append({"key": r[0], "msg": r[1], "case": c})
        out = {"n": n, "distinct": len(seen), "failures": fails, "samples": samples, "failing": keys,
               "rule": getattr(mod, "RULE", (mod.__doc__ or "").strip())}
    json.dump(out, open(req["out"], "w"))


if __name__ == "__main__":
    main()
