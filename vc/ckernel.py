"""The compiled shell kernels: wrapped_code_0.c of each package, read from the current source tree on every run.

The C function is a list of assignments out[k] = <expression of the parameters>; an expression uses
+ - * / parentheses, decimal literals and pow(x, n).  It is evaluated as written, in exact arithmetic
(identical subexpressions once).  Dropped: floating-point rounding.  The .pyx wrapper gives the shape
of the result and the order in which the arguments are passed on."""
import ast
import os
import random
import re
from fractions import Fraction

from .sym import S, Unsupported
from .loader import REPO

ROOT = os.path.join(REPO, "hyperstatic/core/fe_model/meta")
SRC = {"metaDKT": "plates/metaDKT", "metaDKQ": "plates/metaDKQ", "metaGQ12": "membranes/GQ12", "metaT9": "membranes/T9"}


PRIME = (1 << 61) - 1


class Z:
    """integers modulo a prime: used to propose equalities (which are then proved), never to decide them"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v % PRIME

    @staticmethod
    def of(c):
        c = Fraction(c)
        return Z(c.numerator) / Z(c.denominator)

    def __add__(a, b):
        return Z(a.v + b.v)

    def __sub__(a, b):
        return Z(a.v - b.v)

    def __mul__(a, b):
        return Z(a.v * b.v)

    def __truediv__(a, b):
        return Z(a.v * pow(b.v, PRIME - 2, PRIME))

    def __neg__(a):
        return Z(-a.v)


class Kernel:
    def __init__(self, name):
        d = os.path.join(ROOT, SRC[name])
        c = re.sub(r"/\*.*?\*/|//[^\n]*", "", open(os.path.join(d, "wrapped_code_0.c")).read(), flags=re.S)
        m = re.search(r"void\s+autofunc\s*\(([^)]*)\)\s*\{(.*)\}\s*$", c, re.S)
        if not m:
            raise Unsupported(name + ": no function autofunc")
        par = [p.split() for p in m.group(1).split(",")]
        if any(p[0] != "double" for p in par):
            raise Unsupported(name + ": parameter types")
        names = [p[-1] for p in par]
        self.params, out = names[:-1], names[-1].lstrip("*")
        pyx = open(os.path.join(d, name + ".pyx")).read()
        df = re.search(r"def\s+autofunc_c\s*\(([^)]*)\)", pyx)
        call = re.search(r"^\s+autofunc\(([^)]*\.data)\)", pyx, re.M)
        shape = re.search(r"np\.empty\(\((\d+),\s*(\d+)\)\)", pyx)
        if not (df and call and shape):
            raise Unsupported(name + ": wrapper")
        self.args = [p.split()[-1] for p in df.group(1).split(",")]
        passed = [p.strip() for p in call.group(1).split(",")][:-1]
        if len(passed) != len(self.params) or not set(passed) <= set(self.args):
            raise Unsupported(name + ": wrapper arguments")
        self.passed, self.shape = passed, (int(shape.group(1)), int(shape.group(2)))
        self.body = [s.strip() for s in m.group(2).split(";") if s.strip()]
        self.out, self.name = out, name

    def tree(self):
        """(k, hash-consed expression) of each assignment"""
        memo, nodes = {}, []

        def put(t):
            if t not in memo:
                memo[t] = len(nodes)
                nodes.append(t)
            return memo[t]

        def go(n):
            if isinstance(n, ast.BinOp):
                return put((type(n.op).__name__, go(n.left), go(n.right)))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
                return put(("Neg", go(n.operand))) if isinstance(n.op, ast.USub) else go(n.operand)
            if isinstance(n, ast.Name):
                return put(("v", n.id))
            if isinstance(n, ast.Constant):
                return put(("c", n.value))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "pow" and len(n.args) == 2:
                a = n.args[1]
                s = 1
                while isinstance(a, ast.UnaryOp):
                    s, a = -s, a.operand
                if not isinstance(a, ast.Constant) or a.value != int(a.value):
                    raise Unsupported("power")
                return put(("pow", go(n.args[0]), s * int(a.value)))
            raise Unsupported(self.name + ": " + ast.dump(n)[:80])
        res, local = [], {}
        for s in self.body:
            m = re.match(r"(?:(?:const\s+)?double\s+)?([A-Za-z_]\w*)(?:\[(\d+)\])?\s*=\s*(.*)$", s, re.S)
            if not m:
                raise Unsupported(self.name + ": statement " + s[:60])
            # decimal literals keep their text; integer / integer would truncate in C
            e = re.sub(r"(?<![\w.])(\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)(?![\w.])", lambda q: f"__d('{q.group(1)}')", m.group(3).replace("\n", " "))
            t = ast.parse(e, mode="eval").body
            t = Lits().visit(t)
            r = go(Sub(local).visit(t))
            if m.group(1) == self.out and m.group(2) is not None:
                res.append((int(m.group(2)), r))
            elif m.group(2) is None:
                local[m.group(1)] = t
            else:
                raise Unsupported(self.name + ": assignment")
        if sorted(k for k, _ in res) != list(range(self.shape[0] * self.shape[1])):
            raise Unsupported(self.name + ": entries")
        return nodes, res

    def apply(self, t, v, const):
        """value of one node from those of its operands"""
        k = t[0]
        if k == "c":
            return const(t[1])
        if k == "Neg":
            return -v(t[1])
        if k == "Add":
            return v(t[1]) + v(t[2])
        if k == "Sub":
            return v(t[1]) - v(t[2])
        if k == "Mult":
            return v(t[1]) * v(t[2])
        if k == "Div":
            a, b = self.cached()[0][t[1]], self.cached()[0][t[2]]
            if a[0] == "c" and b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
                raise Unsupported(self.name + ": integer division")
            return v(t[1]) / v(t[2])
        if k == "pow":
            p, r = v(t[1]), const(1)
            for _ in range(abs(t[2])):
                r = r * p
            return r if t[2] >= 0 else const(1) / r
        raise Unsupported(self.name + ": operator " + k)

    def env(self, vals):
        if len(vals) != len(self.args):
            raise TypeError(self.name + ": arguments")
        by = dict(zip(self.args, vals))
        return {p: by[q] for p, q in zip(self.params, self.passed)}

    def matrix(self, v):
        import numpy as np
        out = np.empty(self.shape[0] * self.shape[1], dtype=object)
        for k, r in self.cached()[1]:
            out[k] = v(r)
        return out.reshape(self.shape)

    def evaluator(self, vals, const):
        env, nodes, memo = self.env(vals), self.cached()[0], {}

        def v(i):
            if i not in memo:
                t = nodes[i]
                memo[i] = env[t[1]] if t[0] == "v" else self.apply(t, v, const)
            return memo[i]
        return v

    def __call__(self, *vals, const=S.const):
        """matrix of the kernel at the given arguments (of the Python wrapper)"""
        return self.matrix(self.evaluator(vals, const))

    def abstracted(self, vals, material, named, const=S.const):
        """(matrix, cuts): maximal subexpressions free of the `material` parameters whose value at a random
        point is that of a named quantity (up to sign) are replaced by its symbol;
        cuts = [(node, symbol, sign)], to be justified by the caller"""
        nodes = self.cached()[0]
        point = {p: Z(random.Random(p).randrange(PRIME)) for p in self.params}
        num = self.evaluator([point[p] for p in self.args], Z.of)
        by = {}
        for key, (sy, f) in named.items():
            z = f(point)
            for s, w in ((1, z), (-1, -z)):
                if w.v:
                    by.setdefault(w.v, (key, s))
        dep, cuts, memo, env = {}, {}, {}, self.env(vals)

        def d(i):
            if i not in dep:
                t = nodes[i]
                dep[i] = t[1] in material if t[0] == "v" else any(d(x) for x in ([] if t[0] == "c" else t[1:2] if t[0] == "pow" else t[1:]))
            return dep[i]

        def v(i):
            if i not in memo:
                t = nodes[i]
                if t[0] != "c" and not d(i) and num(i).v in by:
                    key, s = by[num(i).v]
                    cuts[i] = (key, s)
                    memo[i] = named[key][0] * s
                else:
                    memo[i] = env[t[1]] if t[0] == "v" else self.apply(t, v, const)
            return memo[i]
        return self.matrix(v), cuts

    def cached(self):
        if not hasattr(self, "_t"):
            self._t = self.tree()
        return self._t


class Lits(ast.NodeTransformer):
    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "__d":
            return ast.Constant(Fraction(n.args[0].value))
        return self.generic_visit(n)


class Sub(ast.NodeTransformer):
    def __init__(self, d):
        self.d = d

    def visit_Name(self, n):
        return self.d.get(n.id, n)
