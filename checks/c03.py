import gen
from common import *
ID = "C03"
SPEC = "Algebra"


def _models(tier):
    return [("Laws", "Laws_C03.cfg", {"LAW": "C03", "TIER": tier})]


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 4500, 50000)):
        ty = ["tropical", "sfst", "foma"][j % 3]
        sp = rng.choice([(), (), ("@I",), ("@I", "@U")])
        op = rng.choice(["intersect", "subtract", "subtract", "negate"])
        acc = op == "negate" or rng.random() < 0.5

        def f(w=0.5):
            return gen.for_type(rng, ty, wcyclic=False, nmax=4, arcs=7, special=sp, syms=syms(rng), alpha=extra_alpha(rng),
                                acceptor=acc, pweight=w)
        prog = [load(0, f(0.0 if op == "negate" else 0.5)), load(1, f())]
        if op == "negate":
            if rng.random() < 0.1:
                prog[0] = load(0, gen.for_type(rng, ty, nmax=3, arcs=5, pweight=0))
            prog.append({"op": "negate", "r": 0})
            if rng.random() < 0.3:
                prog.append({"op": "negate", "r": 0})
        else:
            if rng.random() < 0.3:     # operands that overlap
                prog[1:] = [load(1, f()), {"op": "disjunct", "r": 1, "a": 0}]
            prog.append({"op": op, "r": 0, "a": rng.choice([1, 1, 1, 1, 0])})
        out.append({"id": j, "type": ty, "N": 2 if sp else 3, "prog": prog})
    return out
