"""random histories of adding nodes, beams and shells (repeated names, coincident locations, duplicate checks) against a plain ordered dictionary"""
from rt.common import *
from hyperstatic.core.fe_model.model import Model
from hyperstatic.core.fe_model.assembly import Assembly

S = dict(E=2.0e5, mu=0.3, A=1.0, I2=2.0, I3=3.0, J=4.0, rho=1.5)
def _beams(k):
    return {"ops": [["node", n, [i, i * i, 1], False] for i, n in enumerate("ABCD")] + [["beam", "p" * i, "A", "B", False] for i in range(1, k)] + [["beam", x, a, b, True] for x, a, b in (("y", "B", "A"), ("z", "A", "B"), ("u", "A", "C"), ("v", "C", "B"), ("w", "B", "C"), ("x", "C", "A"))]}


CORNERS = [{"ops": [["node", "A", [0, 0, 0], False], ["node", "B", [1, 2, 0], False], ["mass", "A", [1, 2, 3, 4, 5, 6]], ["restr", "B", [1, 0, 0, 1, 0, 0]], ["restr", "A", [1, 1, 0, 1, 0, 0]], ["node", "A", [0, 0, 0], True], ["node", "B", [1, 2, 0], True],
                    ["beam", "x", "A", "B", False], ["rel", "x"], ["beam", "x", "A", "B", True], ["beam", "y", "B", "A", True], ["node", "A", [0, 0, 3], False], ["beam", "x", "B", "A", False], ["shell", "s", ["A", "B", "A"]]]},
           _beams(1), _beams(2), _beams(3), _beams(4)] + [{"ops": [["node", n, [i, i * i, 1], False] for i, n in enumerate("ABCD")] + [["beam", "x", "A", "B", False], ["beam", "y", "A", "Z", False], ["beam", "w", "A", "C", "no section"], ["beam", "z", "B", "C", False], ["beam", "x", "Z", "C", True],
            ["beam", "w", "A", "C", False], ["beam", "y", "B", "D", True], ["beam", "v", "A", "D", False]]}] + [{"ops": []},
           {"ops": [["node", "A", [0, 0, 0], False], ["node", "B", [1, 0, 0], False], ["node", "A", [0, 1, 0], False], ["node", "C", [5, 5, 5], False]]},
           {"ops": [["node", "A", [0, 0, 0], False], ["node", "B", [1, 0, 0], False], ["node", "C", [1, 0, 0], True], ["node", "D", [1, 0, 2e-9], True], ["node", "D2", [1, 0, 5e-10], True], ["node", "E", [3, 0, 0], False]]},
           {"ops": [["node", "A", [0, 0, 0], False], ["node", "B", [1, 0, 0], False], ["node", "C", [1, 2, 0], False], ["node", "A", [1, 2, 0], True], ["node", "D", [0, 0, 0], True]]},
           {"ops": [["node", n, [i, i * i, 1], False] for i, n in enumerate("ABCD")] + [["beam", "x", "A", "B", False], ["beam", "y", "B", "C", False], ["beam", "z", "B", "A", True], ["beam", "x", "C", "D", False], ["beam", "w", "A", "C", True], ["beam", "v", "A", "B", True]]},
           {"ops": [["node", n, [i, i * i, 0], False] for i, n in enumerate("ABCDE")] + [["shell", "s", ["A", "B", "C"]], ["shell", "t", ["A", "B", "C", "D"]], ["shell", "s", ["B", "C", "D"]], ["shell", "u", ["C", "D", "E"]]]},
           {"ops": [["node", n, [i, i * i, 0], False] for i, n in enumerate("ABCDE")] + [["shell", "s", ["A", "B", "C"]], ["beam", "x", "A", "B", False], ["shell", "t", ["A", "B", "Z"]], ["shell", "w", ["A", "B", "C"], "nope"], ["shell", "v", ["C", "D", "E"]], ["beam", "y", "B", "C", True],
            ["shell", "t", ["B", "C", "D"]], ["shell", "w", ["A", "B", "C", "D"], "nope"], ["beam", "z", "C", "D", False], ["shell", "w", ["A", "C", "D"]]]}]


def gen(rng, i):
    ops = [["node", n, [rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1)], False] for n in "AB"]
    if rng.random() < .4:
        ops = [["node", n, [k, k * k, 1], False] for k, n in enumerate("ABCDEF")]
        if rng.random() < .5:
            rng.shuffle(ops)
    for _ in range(rng.randint(0, 10)):
        r = rng.random()
        if r < .06:
            ops.append(["mass", rng.choice("ABCD"), [rng.randint(1, 9) for _ in range(6)]])
        elif r < .12:
            ops.append(["restr", rng.choice("ABCD"), [rng.random() < .5 for _ in range(6)]])
        elif r < .18:
            ops.append(["rel", rng.choice("xyz")])
        elif r < 0.5:
            ops.append(["node", rng.choice("ABCDEF"), [rng.randint(0, 2), rng.randint(0, 1), rng.choice([0, 1, 1e-10, 1e-8])], rng.random() < 0.5])
        elif r < 0.85:
            ops.append(["beam", rng.choice("xyzw"), rng.choice("ABCDEF"), rng.choice("ABCDEF"), rng.choice([True, True, True, False, False, False, "no section"])])
        else:
            ops.append(["shell", rng.choice("stu"), sorted(rng.sample("ABCDEF", rng.choice([3, 4])))] + (["nope"] if rng.random() < .15 else []))
    return {"ops": ops}


def check(c):
    m = Model()
    m.add_isotropic_material("m", 1, 2e5, 0.3, 1e-5)
    m.add_shell_section("sec", "m", 0.1)
    m.add_beam_section_general("g", "m", 1, 2, 3, 4, 5, 6, 7, 8)
    nodes, beams, shells = {}, {}, {}      # name -> data, insertion ordered
    mass, restr, rel = {}, {}, {}
    d = lambda a, b: math.dist([float(x) for x in a], [float(x) for x in b])
    for op in c["ops"]:
        if op[0] in ("mass", "restr"):
            if op[1] in nodes:
                if op[0] == "mass":
                    m.set_nodal_mass(op[1], *op[2])
                    mass[op[1]] = op[2]
                else:
                    m.set_nodal_restraint(op[1], *op[2])
                    restr[op[1]] = op[2]
            continue
        if op[0] == "rel":
            if op[1] in beams:
                m.set_beam_releases(op[1], r2i=True)
                rel[op[1]] = True
            continue
        if op[0] == "beam" and (op[2] not in nodes or op[3] not in nodes or op[4] == "no section"):
            _, n, a, b, chk = op
            for f in ([lambda: m.add_simple_beam(n, a, b, **S, check_dup=chk)] if chk != "no section" else []) + [lambda: m.add_beam(n, a, b, "g" if chk != "no section" else "nope", check_dup=chk is True)]:
                try:
                    f()
                except Exception:
                    continue
                return "undefined-accepted", str(op)
            h = want = None
        elif op[0] == "node":
            _, n, x, chk = op
            ds = [d(y, x) for y in nodes.values()]
            if chk and any(0.5e-9 < t < 2e-9 and t != 2e-9 for t in ds):
                continue
            dup = [k for k, y in nodes.items() if chk and d(y, x) < 1e-9]
            h = m.add_node(n, *x, check_dup=chk)
            if dup:
                want = list(nodes).index(dup[0])
            else:
                nodes[n] = x
                mass.pop(n, None)               # a new object
                want = list(nodes).index(n)
        elif op[0] == "beam":
            _, n, a, b, chk = op
            if d(nodes[a], nodes[b]) < 1e-6:
                continue
            x = (nodes[a], nodes[b])
            if chk and any(0 < d(p, q) < 1e-6 for y in beams.values() for p in y[1] for q in x):
                continue
            dup = [k for k, (_, y) in beams.items() if chk and any(d(y[0], u) < 1e-9 and d(y[1], v) < 1e-9 for u, v in (x, x[::-1]))]
            h = m.add_simple_beam(n, a, b, **S, check_dup=chk) if (len(n) + len(beams) + ord(n[0]) + ord(a)) % 2 else m.add_beam(n, a, b, "g", check_dup=chk)
            if dup:
                want = list(beams).index(dup[0])
            else:
                beams[n] = ((a, b), x)
                rel.pop(n, None)
                want = list(beams).index(n)
        else:
            _, n, k = op[:3]
            sec = op[3] if len(op) > 3 else "sec"
            bad = sec != "sec" or any(x not in nodes for x in k)
            try:
                h = m.add_shell(n, sec, *k)
            except Exception:
                h = want = None                # undefined parts or degenerate corners: nothing is added
            else:
                if bad:
                    return "undefined-accepted", str(op)
                shells[n] = tuple(k)
                want = list(shells).index(n)
        if h != want:
            return "returned-hid", f"{op}: {h} instead of {want}"
        if m.node_count != len(nodes) or m.beam_count != len(beams):
            return "count", f"{m.node_count} nodes {m.beam_count} beams after {op}"
        for what, names, st, hid in (("node", m.get_node_names(), nodes, m.get_node_hid), ("beam", m.get_beam_names(), beams, m.get_beam_hid), ("shell", m.get_shell_names(), shells, m.get_shell_hid)):
            if list(names) != list(st):
                return what + "-names", f"{names} instead of {list(st)}"
            if [hid(x) for x in names] != list(range(len(st))):
                return what + "-hids", f"{[hid(x) for x in names]} after {op}"
        r = first(*[expect("location", m.get_node_location(n), x) for n, x in nodes.items()])
        if r:
            return r
        r = first(*[expect("mass-kept", m.get_nodal_mass(n), mass.get(n, [0] * 6)) for n in nodes])
        if r:
            return r
        got = {k: [bool(y) for y in v] for k, v in m.get_nodal_restraint_dict().items()}
        if got != restr:
            return "restraints-kept", f"{got} instead of {restr} after {op}"
        for n in beams:
            if (abs(dense(m.get_beam_K(n, condensate=True))[4, 4]) < 1e-9) != (n in rel):
                return "releases-kept", f"releases of {n} after {op}"
        for n, ((a, b), _) in beams.items():
            if tuple(m.get_beam_connection(n)) != (a, b) or list(m.get_beam_node_hids(n)) != [list(nodes).index(a), list(nodes).index(b)]:
                return "beam-connection", str(m.get_beam_connection(n))
        for n, k in shells.items():
            if tuple(m.get_shell_connection(n)) != k or list(m.get_shell_node_hids(n)) != [list(nodes).index(a) for a in k]:
                return "shell-connection", str(m.get_shell_connection(n))
    a = Assembly(m, [])
    if a.node_count != len(nodes) or [a.get_node_hid(n) for n in nodes] != list(range(len(nodes))) or [a.get_beam_hid(n) for n in beams] != list(range(len(beams))):
        return "assembly-hids", "hids of the assembly differ"
