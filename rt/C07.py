"""random members of both types: consistent and lumped mass against exact integration; total mass; positive definiteness of the translational part"""
from rt.beamrt import *
from rt.C06 import CORNERS, gen


def check(c):
    if degenerate(c):
        return None
    s, L = c["s"], length(c)
    b, m = obj(c), make(c)
    W = full(spec.mass_consistent(float(s["rho"]), float(s["A"]), float(s["J"]), L))
    D = np.diag([s["rho"] * s["A"] * L / 2 if i % 6 < 3 else 0.0 for i in range(12)])
    M = dense(b.integrate_M(consistent=True)).astype(float)
    l0 = dense(b.integrate_M()).astype(float)
    rot = [l0[i, i] for i in (3, 4, 5, 9, 10, 11)]
    T = dense(m.get_beam_transform_matrix("B"))
    return first(expect("consistent", M, W), expect("symmetric", M, M.T), expect("lumped", l0, D, atol=1e-9),
                 None if all(0 <= v <= 1e-9 for v in rot) else ("lumped-rotations", str(rot)),
                 None if np.linalg.eigvalsh((M + M.T) / 2)[0] > -1e-9 * np.abs(M).max() else ("indefinite", "negative kinetic energy"),
                 expect("model-mass", dense(m.get_beam_M("B")).astype(float), D, atol=1e-9),
                 expect("model-mass-global", dense(m.get_beam_M("B", local=False)).astype(float), T.T @ D @ T, atol=1e-9))
