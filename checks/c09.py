import gen
from common import *
ID = "C09"
SPEC = "Algebra"


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 4500, 50000)):
        op = rng.choice(["n_best", "n_best", "set_final_weights", "transform_weights", "push_weights", "disjunct", "compose", "intersect",
                         "determinize", "minimize", "remove_epsilons", "repeat_star", "concatenate", "subtract", "priority_union"])
        acyc = op in ("n_best", "determinize", "minimize", "subtract", "priority_union", "intersect")
        kw = dict(nmax=5, arcs=8, pweight=1.0, acyclic=acyc, wmax=rng.choice([3, 9, 40]))
        v = gen.fst(rng, peps=0.0 if op == "n_best" else 0.2, **kw)
        prog = [load(0, v)]
        e = {"op": op, "r": 0}
        if op == "n_best":
            e["k"] = rng.choice([1, 1, 2, 3, 4, 50])
        elif op == "set_final_weights":
            e.update(w=rng.randint(0, 8), inc=rng.randint(0, 1))
        elif op == "transform_weights":
            e["fn"] = rng.choice(["double", "plus", "zero"])
        elif op == "push_weights":
            e["dir"] = rng.choice(["initial", "final"])
        elif op in ("disjunct", "compose", "intersect", "concatenate", "subtract", "priority_union"):
            prog.append(load(1, gen.fst(rng, **kw)))
            e["a"] = 1
        prog.append(e)
        out.append({"id": j, "type": "tropical", "N": 3, "prog": prog})
    return out
