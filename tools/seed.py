"""python3 tools/seed.py NAME PROP FILE: reads a spec from stdin (sections OLD/NEW/NEEDS/BREAKS/DEMO), writes seeded/NAME and confirms it in a scratch copy"""
import sys, os, re, json, subprocess, shutil, tempfile
name, prop, file = sys.argv[1:4]
txt = sys.stdin.read()
sec = {}
for m in re.finditer(r"^@@(\w+)\n(.*?)(?=^@@\w+\n|\Z)", txt, re.S | re.M):
    sec.setdefault(m.group(1), []).append(m.group(2).rstrip("\n"))
d = f"/verif/seeded/{name}"
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix="seed_")
try:
    w = t + "/repo"
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    p = f"{w}/{file}"
    s = open(p, newline="").read()
    crlf = "\r\n" in s
    for o, n in zip(sec["OLD"], sec["NEW"]):
        if crlf:
            o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
        if s.count(o) != 1:
            print("OLD occurs", s.count(o), "times:", o[:80]); sys.exit(2)
        s = s.replace(o, n)
    open(p, "w", newline="").write(s)
    diff = subprocess.run(["git", "diff", "--binary"], cwd=w, stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(diff)
    # lines removed must be original
    base = subprocess.run(["git", "blame", "-s", "HEAD", "--", file], cwd=w, capture_output=True, text=True).stdout.splitlines()
    open(d + "/demo.py", "w").write(sec["DEMO"][0] + "\n")
    open(d + "/demo.sh", "w").write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$D:$PWD"
exec /opt/venv/bin/python -W ignore "$D/demo.py"
''')
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy("/verif/stubs/quadpy.py", d + "/quadpy.py")
    json.dump({"property": prop, "needs": sec["NEEDS"][0], "what_it_breaks": sec["BREAKS"][0]}, open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=w)
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "-rA", "tests"], cwd=w, env=env, capture_output=True, text=True)
    passed = {m.group(1).replace("/", ".").replace(".py::", ".").replace("::", "::") for m in re.finditer(r"^PASSED (\S+)", r.stdout, re.M)}
    miss = [x for x in st if x not in passed]
    print(f"{name}: unchanged {a.returncode} patched {b.returncode} stable missing {miss}")
    if a.returncode or not b.returncode or miss:
        print(a.stdout[-500:], a.stderr[-1500:], "----", b.stdout[-500:], b.stderr[-800:])
        sys.exit(1)
    print("  ", (b.stdout + b.stderr).strip().splitlines()[-1][:200])
finally:
    shutil.rmtree(t)
