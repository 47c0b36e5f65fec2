"""Direct time integration: the stored displacements start from rest and satisfy the central difference equation of motion at every step."""
from props.asm import *
from vc import linop, shim_np, idxset

FUNCTIONS = ["core.fe_solver.dynamic.TimeHistorySolver.solve", "core.fe_solver.dynamic.TimeHistorySolver.solve_direct_time_integration", "core.fe_solver.Solver.__init__", "core.fe_post.ResultResolver.load_displacement",
             "core.fe_post.node.NodeResultResolver.resolve_nodal_displacement"]
ASSUME = ["the assembly enters through its contract (C17-C20); the reduction to the free degrees of freedom is linear (C20)", "scipy.sparse.linalg.cg(A, b) returns x with A x = b (its default tolerance is 1e-5; convergence is only exercised at run time)",
          "the algebra of matrices and vectors of arbitrary size is formal (vc/linop.py): sums, multiples and matrix-vector products", "stability of the integration (step size) is the user's choice; no base case",
          "loop invariant: before step t the stack holds the displacements of the steps -1 .. t, one row per step"]
RT_N = {"quick": 40, "thorough": 500}
CASE_SECONDS = 30


class ATime(AStub):
    """contract of the assembly as formal operators"""

    def __init__(self, E, model, cs):
        super().__init__(E, model, cs)
        self.free = self.n6 - self.R.size()
        self.steps = []

    def assemble_K(self):
        return linop.FOp({"K": S.const(1)}, self.n6, "coo")

    def assemble_M(self, casename=None):
        if casename is not None:
            raise Unsupported("mass of a case")
        return linop.FOp({"M": S.const(1)}, self.n6, "coo")

    def assemble_f(self, casename, time_step=0):
        E = self.E
        E.same("loads of the case", casename == "case")
        self.steps.append(time_step)
        return linop.FVec.atom(("f", linop.key(time_step)), self.n6, "col")

    def assemble_boundary(self, casename, A):
        if casename != "case":
            raise Unsupported("reduction of another case")
        if isinstance(A, linop.FOp):
            if A.format != "coo":
                raise AttributeError("row")
            return linop.FOp({k + "_": v for k, v in A.terms.items()}, self.free, "csr")
        return linop.FVec({(o, (a[0] + "_",) + a[1:]): v for (o, a), v in A.terms.items()}, self.free, "col")

    def get_max_min_step(self, casename):
        self.E.same("steps of the case", casename == "case")
        return self.tmax, self.tmin


def proportional(E, name, got, want, by):
    """two formal vectors are equal up to a factor, that of the atom `by`"""
    z = S.const(0)
    a, b = got.get(by, z), want[by]
    E.prove(name + ": load present", neg(rel("eq", a, z)))
    ks = list(dict.fromkeys(list(got) + list(want)))
    E.eq(name, [got.get(k, z) * b for k in ks], [want.get(k, z) * a for k in ks])


def contracts(E):
    dy = load("hyperstatic.core.fe_solver.dynamic")
    rm, rc = elem("restrained node"), elem("case-restrained node")
    for nm, model, cs in (("restraints of the model", rm, None), ("restraints of the case", rm, rc), ("no restraints", None, None)):
        def c(E):
            a = ATime(E, model, cs)
            if cs is not None:
                E.assume(a.R.size() >= 1)
            dt, xi = var("dt", pos=True), var("xi", nonneg=True)
            a.setting = {"base_case": None, "algorithm": "direct_time_integration", "params": {"step_size": dt, "damping_ratio": xi}}
            a.tmin, a.tmax = fn("tmin", pos=True), fn("tmax", pos=True)
            E.assume(a.tmin <= a.tmax)
            shim_np.FS["w/m.asb"] = a
            shim_sp._Sl.calls.clear()
            dy.TimeHistorySolver("w", "m.asb").solve("case")
            d = shim_np.FS.get("w/case.d.npy")
            E.same("stored per case", isinstance(d, linop.FRows) and d.rec is not None)
            r = d.rec
            E.eq("from time 0 to the last step of the shortest curve", d.count(), a.tmin + 1)
            E.eq("number of steps", r["stop"], a.tmin)
            c0 = len(r["init"])
            E.same("two rows before the first step: times -dt and 0", c0 == 2 and d.off == 1)
            E.same("starts from rest", all(not x.terms for x in r["init"]))
            E.eq("free degrees of freedom", d.m, a.free)
            t = r["i"]
            E.same("one solution per step", len(r["rows"]) == 1 and len(shim_sp._Sl.calls) == 1)
            h, x = r["rows"][0]
            A, b, xx = shim_sp._Sl.calls[0]
            E.same("the solution is stored", linop._comb(x.terms, xx.terms, S.const(-1)) == {})
            E.same("loads of this step", len(a.steps) == 1)
            E.eq("time of the loads", a.steps[0], t)
            # M (u+ - 2u + u-)/dt^2 + C (u+ - u-)/2dt + K u = f,  C = a0 M + a1 K
            wi, wj = PI, 2 * PI
            a0, a1 = 2 * xi * wi * wj / (wi + wj), 2 * xi / (wi + wj)
            u = lambda k: ("row", h.name, linop.key(t + k))
            new = ("x", 0)
            want = {("", ("f_", linop.key(t))): S.const(1)}
            m, cc = 1 / (dt * dt), 1 / (2 * dt)
            for at_, s in ((new, -(m + cc * a0)), (u(1), 2 * m), (u(0), -(m - cc * a0))):
                want[("M_", at_)] = s
            for at_, s in ((new, -cc * a1), (u(1), S.const(-1)), (u(0), cc * a1)):
                want[("K_", at_)] = s
            got = linop._comb(b.terms, A.dot(linop.FVec.atom(new, A.m)).terms, S.const(-1))
            proportional(E, "equation of motion at every step", got, want, ("", ("f_", linop.key(t))))
        E.run(f"direct integration, {nm}", c, functions=FUNCTIONS, merge=True, abstract=True)
