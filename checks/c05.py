import gen
from common import *
ID = "C05"
SPEC = "Algebra"
OPS = ["determinize", "minimize", "optimize", "remove_epsilons", "prune", "push_weights", "push_labels", "prune_alphabet"]


def step(rng, sp, ty, alone=None):
    op = alone or rng.choice(OPS)
    if sp and op == "push_labels":
        op = "minimize"
    if ty == "foma" and op == "remove_epsilons":      # KF1: libfoma crashes
        op = "optimize"
    e = {"op": op, "r": 0}
    if op in ("push_weights", "push_labels"):
        e["dir"] = rng.choice(["initial", "final"])
    if op == "prune_alphabet":
        e["force"] = 0 if sp else rng.randint(0, 1)
    return e


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 4500, 50000)):
        ty = ["tropical", "sfst", "foma"][j % 3]
        sp = rng.choice([(), (), ("@I", "@U")])
        v = gen.for_type(rng, ty, wcyclic=False, nmax=6, arcs=10, special=sp, alpha=extra_alpha(rng), peps=rng.choice([0.1, 0.2, 0.4]))
        prog = [load(0, v)] + [step(rng, sp, ty) for _ in range(rng.randint(1, 3))]
        out.append({"id": j, "type": ty, "N": 2 if sp else 3, "prog": prog})
    return out


def known():
    v = {"n": 3, "t": [[0, 1, "b", "a", 0], [0, 2, "a", "a", 0], [0, 1, "", "", 0]], "f": [[2, 0]], "a": ["", "@I", "@U", "a", "b"]}
    return [{"id": "KF1", "type": "foma", "N": 2, "prog": [load(0, v), {"op": "remove_epsilons", "r": 0}]}]
