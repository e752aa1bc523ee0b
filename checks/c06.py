import gen
from common import *
ID = "C06"
SPEC = "Algebra"
BIN = ["concatenate", "disjunct", "compose", "intersect", "subtract", "priority_union", "cross_product", "insert_freely_tr",
       "lenient_composition"]


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 4500, 50000)):
        ty = ["tropical", "sfst", "foma"][j % 3]
        sp = rng.choice([("@I",), ("@I", "@U"), ("@U",)])
        acc = rng.random() < 0.3

        def f():
            return gen.for_type(rng, ty, wcyclic=False, nmax=3, arcs=5, special=rng.choice([sp, sp, ()]),
                                syms=rng.choice([("a",), ("b",), ("a", "b"), ("c",)]), alpha=extra_alpha(rng), acceptor=acc)
        prog = [load(0, f()), load(1, f())]
        hasu = any("@U" in x[2:4] for e in prog for x in e["fst"]["t"])
        for k in range(rng.randint(1, 2)):
            op = rng.choice(BIN)
            if not acc and op == "cross_product":
                op = "disjunct"
            if hasu and op in ("compose", "lenient_composition"):     # see C02 KF1; covered there
                op = "concatenate"
            prog.append({"op": op, "r": k % 2, "a": 1 - k % 2})
            if rng.random() < 0.4:
                prog.append({"op": rng.choice(["optionalize", "repeat_star", "invert", "reverse", "input_project", "output_project"]), "r": k % 2})
        out.append({"id": j, "type": ty, "N": 2, "prog": prog})
    return out
