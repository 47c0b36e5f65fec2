"""Static results: nodal displacements, beam deformation, beam end forces, nodal and total reactions are those of the stored displacements; any model size and step."""
from props.asm import *
from vc import idxset, shim_np

AS = "core.fe_model.assembly.Assembly."
PO = "core.fe_post."
FUNCTIONS = [PO + "ResultResolver.__init__", PO + "node.NodeResultResolver.resolve_nodal_displacement", PO + "node.NodeResultResolver.resolve_nodal_reaction",
             PO + "beam.BeamResultResolver.resolve_beam_deformation", PO + "beam.BeamResultResolver.resolve_beam_end_force", PO + "structure.StructureResultResolver.resolve_structural_reaction",
             AS + "get_beam_end_force"]
ASSUME = ["the assembly enters through its contract (C16-C20); the stored displacements are one row of all degrees of freedom per step (C21)",
          "beam deformation is the interpolation of the end displacements (members without end releases)",
          "a case that has restraints restrains at least one degree of freedom"]
RT_N = {"quick": 60, "thorough": 700}


class PStub(AStub):
    def __init__(self, E, model, cs):
        super().__init__(E, model, cs)
        self.node, self.beam = elem("the node"), elem("the beam")
        self.B = MStub(E)

    def get_node_hid(self, n):
        assert n is self.node
        return fn("hid", n, nonneg=True)

    def get_beam_node_hids(self, b):
        assert b is self.beam
        return SList([fn("hid", "start", b, nonneg=True), fn("hid", "end", b, nonneg=True)])

    def get_beam_transform_matrix(self, b):
        return self.B.get_beam_transform_matrix(b)

    def get_beam_interpolate(self, b, loc):
        return npo.array([fn("N", b, loc, S.const(i)) for i in range(12)], dtype=object)

    def get_beam_interpolate1(self, b, loc):
        return npo.array([fn("N1", b, loc, S.const(i)) for i in range(12)], dtype=object)

    def get_beam_end_force(self, b, d, case, time_step=0):
        assert b is self.beam and case == "case"
        t = sym.coerce(time_step)
        return npo.array([fn("S", b, t, S.const(i), *list(npo.asarray(d).reshape(12))) for i in range(12)], dtype=object)

    def assemble_f(self, casename, time_step=0):
        e, val, row, _ = entries("f" + casename + "@" + repr(sym.coerce(time_step)))
        return shim_sp.spr.coo_matrix((val, (row, SList.of_parts([("s", e, [(True, [("c", [0])])])]))), shape=(self.n6, 1)).tocsr()


def R(what, *a):
    return load("hyperstatic.core.fe_post." + what)


def prep(E, model=None, cs=None):
    a = PStub(E, model, cs)
    shim_np.FS["w/m.asb"] = a
    shim_np.FS["w/case.d.npy"] = idxset.GRows("d", a.n6)
    shim_np.FS["w/other.d.npy"] = idxset.GRows("other", a.n6)
    return a


def react(a, step, i):
    """component i of  K d - f  at a step"""
    only = lambda r: ind(rel("eq", sym.coerce(r), sym.coerce(i)))
    return a.assemble_K().bilinear(only, lambda c: fn("d", step, c)) - a.assemble_f("case", step).bilinear(only, lambda c: S.const(1))


def contracts(E):
    s = var("step", pos=True)
    steps = [("first step by default", (), S.const(0)), ("any step", (s,), s - 1), ("second step", (2,), S.const(1))]
    rm, rc = elem("restrained node"), elem("case-restrained node")
    for nm, arg, row in steps:
        def c(E):
            a = prep(E)
            r = R("node").NodeResultResolver("w", "m.asb")
            h = fn("hid", a.node, nonneg=True)
            E.eq("displacement of the node", r.resolve_nodal_displacement(a.node, "case", *arg), [fn("d", row, h * 6 + k) for k in range(6)])
            E.eq("reaction of the node", r.resolve_nodal_reaction(a.node, "case", *arg), [react(a, row, h * 6 + k) for k in range(6)])
        E.run(f"node results, {nm}", c, functions=FUNCTIONS, abstract=True, merge=True)

        def c(E):
            a = prep(E)
            b = a.beam
            i, j = [fn("hid", w, b, nonneg=True) for w in ("start", "end")]
            D = npo.array([fn("d", row, h * 6 + k) for h in (i, j) for k in range(6)], dtype=object)
            r = R("beam").BeamResultResolver("w", "m.asb")
            E.eq("end forces from the displacements of the beam's own ends, in end order", r.resolve_beam_end_force(b, "case", *arg), [fn("S", b, row, S.const(k), *D) for k in range(12)])
            x = var("xi")
            rot = a.B.rot("b", b)
            u = npo.concatenate([npo.dot(rot, D[3 * k:3 * k + 3]) for k in range(4)])
            N, N1 = a.get_beam_interpolate(b, x), a.get_beam_interpolate1(b, x)
            w = lambda M, o, ks: dot([M[o + q] for q in range(len(ks))], [u[k] for k in ks])
            E.eq("deformation at a location", r.resolve_beam_deformation(b, x, "case", *arg),
                 [w(N, 0, (0, 6)), w(N, 2, (1, 5, 7, 11)), w(N, 6, (2, 4, 8, 10)), w(N, 10, (3, 9)), w(N1, 2, (1, 5, 7, 11)), w(N1, 6, (2, 4, 8, 10))])
        E.run(f"beam results, {nm}", c, functions=FUNCTIONS, abstract=True, merge=True)

    for nm, model, cs in (("restraints of the model", rm, None), ("restraints of the case", rm, rc), ("no restraints", None, None)):
        def c(E):
            a = prep(E, model, cs)
            if cs is not None:
                E.assume(a.R.size() >= 1)
            r = R("structure").StructureResultResolver("w", "m.asb")
            el = cs if cs is not None else model
            want = S.const(0)
            if el is not None:
                for j, f in enumerate(flags(el)):
                    want = want + Sum(el, S(sym.reduce_ind((ind(f) * react(a, S.const(0), hid(el) * 6 + j)).p)))
            E.eq("sum of the reactions over the restrained dofs", r.resolve_structural_reaction("case"), want)
        E.run(f"total reaction, {nm}", c, functions=FUNCTIONS, abstract=True, merge=True)

    def c(E):
        from props.asm import MStub, CStub
        M = MStub(E)
        b = M.b
        asm = load("hyperstatic.core.fe_model.assembly")
        cs = CStub()
        a = asm.Assembly(M, SList([cs]))
        d = vec("d", 12)
        t = var("t", nonneg=True)
        got = a.get_beam_end_force(b, d, "case", t)
        K = M.mat("CKb", b, 12, M.PAT)
        u = npo.concatenate([npo.dot(M.rot("b", b), d[3 * k:3 * k + 3]) for k in range(4)])
        q = cs.get_beam_f(b, fn("len", b, pos=True), t)
        E.eq("end forces = condensed stiffness times local displacements less the condensed equivalent loads", got, npo.dot(K, u) - npo.dot(M.Cf(b), q))
        E.eq("at the first step by default", a.get_beam_end_force(b, d, "case"), npo.dot(K, u) - npo.dot(M.Cf(b), cs.get_beam_f(b, fn("len", b, pos=True), 0)))
    E.run("end forces of any beam", c, functions=FUNCTIONS, abstract=True)
