"""random materials and strains against the tensor formula"""
from rt.common import *
from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
CORNERS = [{"m": [7.85, 2e5, .3, 1e-5], "e": [1e-3, 0, 0, 0, 0, 0]}, {"m": [7.85, 2e5, .2, 1e-5], "e": [1, 2, 3, 4, 5, 6]}, {"m": [1, 1, 0, 0], "e": [0, 0, 0, 1, 0, 2]}, {"m": [1, 1, .499, 0], "e": [1, 2, 3, 1, 0, 2]}, {"m": [1, 1, .49995, 0], "e": [1, 2, 3, 1, 0, 2]}, {"m": [1, 1, -.3, 0], "e": [1, 2, 3, 1, 0, 2]}]


def gen(rng, i):
    return {"m": [rpos(rng), rpos(rng), rng.choice([rng.uniform(0, .49), rng.uniform(-.95, .49), rng.uniform(.49, .4999), rng.uniform(.4999, .49998)]), rnum(rng)], "e": rvec(rng, 6)}


def check(c):
    rho, E, mu, a = c["m"]
    if not (E > 0 and -1 < mu < .49999):
        return None
    k = IsotropicMaterial("steel", rho, E, mu, a)
    x, y, z, p, q, r = c["e"]
    eps = np.array([[x, p / 2, r / 2], [p / 2, y, q / 2], [r / 2, q / 2, z]], float)
    la, G = E * mu / (1 + mu) / (1 - 2 * mu), E / 2 / (1 + mu)
    return first(None if (k.name, k.mat_model) == ("steel", "isotropy") else ("name", ""), expect("constants", [k.rho, k.E, k.mu, k.a], [rho, E, mu, a]), expect("G", k.G, G), expect("lamda", k.lamda, la),
                 expect("strain", k.C(*c["e"]), eps), expect("stress", k.D(*c["e"]), la * np.trace(eps) * np.eye(3) + 2 * G * eps))
