"""Isotropic materials: Lame constants, strain tensor and stress tensor."""
from vc.api import *

MI = "core.fe_model.material.isotropy.IsotropicMaterial."
FUNCTIONS = [MI + k for k in ("__init__", "name/rho/E/mu/a", "G", "lamda", "C", "D")] + ["core.fe_model.material.Material", "core.fe_model.model.Model.add_isotropic_material"]
ASSUME = ["E > 0, -1 < mu < 1/2"]
RT_N = {"quick": 300, "thorough": 20000}


def contracts(E):
    m = load("hyperstatic.core.fe_model.material.isotropy")
    Y = var("E", pos=True)
    mu, rho, al = var("nu", pos=True) - 1, var("rho", pos=True), var("al")
    e = V("exx", "eyy", "ezz", "gxy", "gyz", "gzx")
    case = {"m": [rho, Y, mu, al], "e": e}

    def c(E):
        E.assume(mu < S.const(1) / 2)
        k = m.IsotropicMaterial("steel", rho, Y, mu, al)
        E.same("name and kind", (k.name, k.mat_model) == ("steel", "isotropy"))
        E.eq("constants as given", [k.rho, k.E, k.mu, k.a], [rho, Y, mu, al])
        E.eq("shear modulus: 2 G (1 + mu) = E", 2 * k.G * (1 + mu), Y)
        E.eq("Lame: lamda (1 + mu)(1 - 2 mu) = E mu", k.lamda * (1 + mu) * (1 - 2 * mu), Y * mu)
        eps = k.C(*e)
        want = [[e[0], e[3] / 2, e[5] / 2], [e[3] / 2, e[1], e[4] / 2], [e[5] / 2, e[4] / 2, e[2]]]
        E.eq("strain tensor", eps, want)
        sig = k.D(*e)
        tr = e[0] + e[1] + e[2]
        E.eq("stress tensor = lamda tr(eps) I + 2 G eps", sig, [[(Y * mu / (1 + mu) / (1 - 2 * mu) * tr if i == j else 0) + Y / (1 + mu) * want[i][j] for j in range(3)] for i in range(3)])
        # the defining experiment: uniaxial stress gives E and mu
        s1 = k.D(1 / Y, -mu / Y, -mu / Y, 0, 0, 0)
        E.eq("uniaxial strain state of unit stress", s1, [[1, 0, 0], [0, 0, 0], [0, 0, 0]])
        ee = e[0] ** 2 + e[1] ** 2 + e[2] ** 2 + (e[3] ** 2 + e[4] ** 2 + e[5] ** 2) / 2
        E.eq("strain energy is a combination of squares with non-negative factors", dot(_flat(sig), _flat(eps)) * (1 + mu) * (1 - 2 * mu), Y * (mu * tr ** 2 + (1 - 2 * mu) * ee))
    E.run("constants and tensors", c, case_of=case, functions=FUNCTIONS, hints=[dict(E=2, nu=1, rho=1)])


def _flat(a):
    return [x for r in a for x in r]
