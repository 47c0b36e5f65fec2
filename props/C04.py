"""Nodes: location, identity frame, 6x6 transformation, mass, frame re-initialisation and rotation about own axes."""
from vc.api import *

N = "core.fe_model.node.Node."
FUNCTIONS = [N + x for x in ("__init__", "loc/x/y/z/name", "mass", "transform_matrix", "initialize_csys", "rotate_about_1axis",
                             "rotate_about_2axis", "rotate_about_3axis", "integrate_M")]


def contracts(E):
    m = load("hyperstatic.core.fe_model.node")
    x, y, z = V("x", "y", "z")
    th = var("theta")
    h = th / 2
    C, Sn = scos(h) ** 2 - ssin(h) ** 2, 2 * ssin(h) * scos(h)
    ms = V("m1", "m2", "m3", "m4", "m5", "m6")

    def new(E):
        n = m.Node("N1", x, y, z)
        E.eq("location", n.loc, [x, y, z])
        E.eq("x,y,z", [n.x, n.y, n.z], [x, y, z])
        E.same("name", n.name == "N1")
        E.eq("transformation is the identity", n.transform_matrix, np.eye(6))
        E.eq("no mass", n.mass, [0] * 6)
        n.mass = np.array(ms)
        E.eq("mass stored", n.mass, ms)
        E.eq("mass matrix diag(m)", dense(n.integrate_M()), np.diag(np.array(ms)))
        E.eq("location unchanged by the mass", n.loc, [x, y, z])
        n.mass = np.array(ms[::-1])
        E.eq("mass stored last", n.mass, ms[::-1])
        E.eq("mass matrix of the mass stored last", dense(n.integrate_M()), np.diag(np.array(ms[::-1])))
    E.run("Node", new, case_of={"p": [x, y, z], "m": ms, "k": "new"}, functions=FUNCTIONS)

    for i in range(3):
        def r(E, i=i):
            n = m.Node("N1", x, y, z)
            n.rotate_about_2axis(th)          # arbitrary non-trivial frame first
            T0 = n.local_csys.transform_matrix
            ax = [T0[i, j] for j in range(3)]
            from props.C02 import rodrigues
            getattr(n, f"rotate_about_{i + 1}axis")(th)
            W = npo.array([rodrigues(ax, th, [T0[k, j] for j in range(3)]) for k in range(3)], dtype=object)
            E.eq("frame rotated about own axis", n.local_csys.transform_matrix, W)
            E.eq("transformation is blockdiag(T,T)", n.transform_matrix, blockdiag(W, 2))
            E.eq("location unchanged", n.loc, [x, y, z])
            n.initialize_csys()
            E.eq("re-initialised to global axes", n.transform_matrix, np.eye(6))
            E.eq("location unchanged by re-initialisation", n.loc, [x, y, z])
        E.run(f"Node.rotate_about_{i + 1}axis", r, case_of={"p": [x, y, z], "th": th, "k": "rot", "i": i, "m": None}, functions=FUNCTIONS)
