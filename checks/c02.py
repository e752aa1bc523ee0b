import gen
from common import *
ID = "C02"
SPEC = "Algebra"


def _models(tier):
    return [("Laws", "Laws_C02.cfg", {"LAW": "C02", "TIER": tier})]


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 4500, 50000)):
        ty = ["tropical", "sfst", "foma"][j % 3]
        # KF1: unknown-to-unknown pairs that arise in the composition lose the identical pairs; the generator keeps
        # unknown inputs of the first and unknown outputs of the second operand apart
        sa, sb = rng.choice([((), ()), ((), ()), (("@I",), ("@I",)), (("@I", "@U"), ("@I", "@Ui")), (("@I", "@Uo"), ("@I", "@U"))])
        sp = sa + sb
        nm = 4 if tier == "quick" else 5

        def f(sp=()):
            return gen.for_type(rng, ty, nmax=nm, arcs=7, special=sp, syms=syms(rng), alpha=extra_alpha(rng))
        prog = [load(0, f(sa)), load(1, f(sb)), {"op": "compose", "r": 0, "a": 1}]
        q = rng.random()
        if "@U" in sp:
            q = 1
        if q < 0.25:
            prog += [load(2, f()), {"op": "compose", "r": rng.choice([0, 2]), "a": rng.choice([0, 1, 2])}]
        elif q < 0.35:
            prog.insert(2, {"op": rng.choice(["invert", "input_project", "output_project"]), "r": rng.choice([0, 1])})
        elif q < 0.42:
            prog[2] = {"op": "compose", "r": 0, "a": 0}
        out.append({"id": j, "type": ty, "N": 2 if sp else 3, "prog": prog})
    return out


def known():
    v = {"n": 2, "t": [[0, 1, "@U", "@U", 0]], "f": [[1, 0]], "a": ["", "@I", "@U"]}
    return [{"id": "KF1", "type": "tropical", "N": 2, "prog": [load(0, v), load(1, v), {"op": "compose", "r": 0, "a": 1}]}]
