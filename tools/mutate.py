#!/usr/bin/env python3
"""Mutation sweep (development aid, not a check): one small change at a time in scratch copies of the repository,
then the checks anchored in that file.   mutate.py FILE[:FUNC-REGEX] PROPS [--max N] [--seed S]"""
import ast, copy, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add}


def sites(tree, rx):
    """yields (description, mutate function on a deep copy by node index)"""
    nodes = list(ast.walk(tree))
    owner = {}

    def own(n, f):
        if isinstance(n, (ast.FunctionDef,)):
            f = (f + "." if f else "") + n.name
        elif isinstance(n, ast.ClassDef):
            f = (f + "." if f else "") + n.name
        owner[id(n)] = f
        for c in ast.iter_child_nodes(n):
            own(c, f)
    own(tree, "")
    out = []
    main = [n for n in ast.walk(tree) if isinstance(n, ast.If) and "__main__" in ast.dump(n.test)]
    dead = {id(x) for m in main for x in ast.walk(m)}
    for k, n in enumerate(nodes):
        f = owner[id(n)]
        if id(n) in dead or not f or (rx and not re.search(rx, f)):
            continue
        L = getattr(n, "lineno", 0)

        def add(what, fn):
            out.append((f"{f}:{L} {what}", k, fn))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            def g(m, op=BIN[type(n.op)]):
                m.op = op()
            add(f"{type(n.op).__name__}->{BIN[type(n.op)].__name__} in {ast.unparse(n)[:60]}", g)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            def g(m):
                m.op = ast.UAdd() if isinstance(m.op, ast.USub) else m.op
                if isinstance(m.op, ast.Not):
                    m.operand = ast.UnaryOp(ast.Not(), m.operand)
            add(f"drop unary in {ast.unparse(n)[:60]}", g)
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            def g(m, op=CMP[type(n.ops[0])]):
                m.ops[0] = op()
            add(f"cmp {ast.unparse(n)[:60]}", g)
        elif isinstance(n, ast.BoolOp):
            def g(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            add(f"boolop {ast.unparse(n)[:60]}", g)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def g(m):
                m.value = not m.value
            add(f"flip {n.value}", g)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            def g(m):
                m.value = m.value + 1
            add(f"{n.value}->{n.value + 1}", g)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 20:
            pass
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            for i in range(len(n.args) - 1):
                def g(m, i=i):
                    m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]
                add(f"swap args {i} of {ast.unparse(n)[:60]}", g)
        elif isinstance(n, ast.If):
            def g(m):
                m.test = ast.Constant(False)
            add(f"never if {ast.unparse(n.test)[:60]}", g)

            def g(m):
                m.test = ast.Constant(True)
            add(f"always if {ast.unparse(n.test)[:60]}", g)
        elif isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
            def g(m):
                m.elts[0], m.elts[1] = m.elts[1], m.elts[0]
            add(f"swap elements of {ast.unparse(n)[:60]}", g)
        elif isinstance(n, ast.Attribute) and n.attr in ("T",):
            pass
        if hasattr(n, "body") and isinstance(n.body, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
            for i, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and "log" not in ast.unparse(s)[:12]:
                    def g(m, i=i):
                        m.body[i] = ast.Pass()
                    out.append((f"{f}:{s.lineno} delete {ast.unparse(s)[:70]}", k, g))
                if isinstance(s, ast.AugAssign):
                    def g(m, i=i):
                        a = m.body[i]
                        m.body[i] = ast.Assign([a.target], a.value, lineno=a.lineno)
                    out.append((f"{f}:{s.lineno} overwrite {ast.unparse(s)[:70]}", k, g))
    return out


def main():
    a = sys.argv[1:]
    opt = {k: int(a[a.index(k) + 1]) for k in ("--max", "--seed", "--jobs") if k in a}
    fn, _, rx = a[0].partition(":")
    props = a[1].split(",")
    src = open("/repo/" + fn, encoding="utf-8").read()
    tree = ast.parse(src)
    S = sites(tree, rx)
    rnd = random.Random(opt.get("--seed", 1))
    rnd.shuffle(S)
    S = S[:opt.get("--max", 60)]
    jobs = opt.get("--jobs", 7)
    W = []
    for i in range(jobs):
        d = tempfile.mkdtemp(prefix="mut_")
        subprocess.run(["cp", "-a", "/repo/hyperstatic", d], check=True)
        for so in os.listdir("/repo"):
            if so.endswith(".so"):
                os.symlink("/repo/" + so, os.path.join(d, so))
        v = tempfile.mkdtemp(prefix="mutv_")
        subprocess.run(f"cp -a {ROOT}/check.py {ROOT}/vc {ROOT}/props {ROOT}/rt {ROOT}/scen {ROOT}/stubs {ROOT}/spec.py {ROOT}/known_findings.txt {v}/ && mkdir {v}/evidence", shell=True, check=True)
        W.append((d, v))
    free = list(range(jobs))

    def one(s):
        desc, k, g = s
        t = copy.deepcopy(tree)
        g(list(ast.walk(t))[k])
        try:
            text = ast.unparse(ast.fix_missing_locations(t))
        except Exception as e:
            return desc, "n/a", ""
        w = free.pop()
        try:
            d, v = W[w]
            open(os.path.join(d, fn), "w", encoding="utf-8").write(text)
            notes = []
            for p in props:
                r = subprocess.run(["timeout", "900", "python3-vt", "check.py", p], cwd=v, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
                if r.returncode == 1:
                    nf = "no-failing-input" in r.stdout and not re.search(r"VIOLATION (?!.*no-failing)", r.stdout)
                    return desc, "caught" + ("(nfi)" if nf else ""), p
                if r.returncode:
                    notes.append(f"{p} rc={r.returncode}")
                m = re.search(r"(\d+) undecided", r.stdout)
                if m and m.group(1) != "0":
                    notes.append(f"{p} {m.group(1)} undecided")
            return desc, "SURVIVED", "; ".join(notes)
        finally:
            open(os.path.join(d, fn), "w", encoding="utf-8").write(src)
            free.append(w)
    n = c = 0
    try:
        with ThreadPoolExecutor(jobs) as ex:
            for desc, st, p in ex.map(one, S):
                n += 1
                c += st.startswith("caught")
                if not st == "caught":
                    print(f"{st:10} {desc}   [{p}]", flush=True)
    finally:
        for d, v in W:
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(v, ignore_errors=True)
    print(f"{fn} {rx}: {c}/{n} caught", flush=True)


main()
