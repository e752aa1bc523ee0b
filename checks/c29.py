import gen
from common import *
ID = "C29"
SPEC = "Algebra"
SAME = ["determinize", "minimize", "optimize", "remove_epsilons"]
OPS = ["disjunct", "concatenate", "repeat_star", "optionalize", "invert", "reverse", "input_project"]


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 4500, 50000)):
        ty = ["tropical", "sfst", "foma"][j % 3]
        sp = rng.choice([(), (), ("@I", "@U")])

        def f():
            return gen.for_type(rng, ty, wcyclic=False, nmax=4, arcs=7, special=sp, alpha=extra_alpha(rng), acceptor=rng.random() < 0.3)
        prog = [load(0, f()), {"op": "copy", "r": 1, "a": 0}]
        if rng.random() < 0.7:
            prog.append({"op": rng.choice(SAME if ty != "foma" else SAME[:3]), "r": 1})
        q = rng.random()
        if q < 0.3:
            prog.append({"op": "disjunct", "r": 1, "a": 0})
        elif q < 0.5:
            prog.append(load(1, f()))
        elif q < 0.7:
            prog += [load(2, f()), {"op": "disjunct", "r": 1, "a": 2}]
        elif q < 0.8 and ty != "tropical":
            prog += [{"op": "repeat_star", "r": 1}, {"op": "repeat_star", "r": 0}, {"op": "repeat_star", "r": 0}]
        prog.append({"op": "compare", "r": 0, "a": 1})
        prog.append({"op": "query", "r": rng.choice([0, 1])})
        prog.append({"op": "dump", "r": 0})
        if rng.random() < 0.3:
            prog += [{"op": "assign", "r": 0, "a": 1}, {"op": "repeat_star" if ty != "tropical" else "optionalize", "r": 1}, {"op": "dump", "r": 0}]
        out.append({"id": j, "type": ty, "N": 2 if sp else 3, "prog": prog})
    return out
