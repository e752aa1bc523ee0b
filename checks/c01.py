import gen
from common import n_of
ID = "C01"
SPEC = "Algebra"
UN = ["repeat_star", "repeat_plus", "optionalize", "invert", "reverse", "input_project", "output_project"]
BIN = ["concatenate", "disjunct"]


def step(rng, regs):
    q = rng.random()
    r = rng.choice(regs)
    if q < 0.45:
        return {"op": rng.choice(BIN), "r": r, "a": rng.choice(regs)}
    if q < 0.8:
        return {"op": rng.choice(UN), "r": r}
    op = rng.choice(["repeat_n", "repeat_n_minus", "repeat_n_plus", "repeat_n_to_k"])
    k = rng.randint(0, 3)
    e = {"op": op, "r": r, "k": k}
    if op == "repeat_n_to_k":
        e["k2"] = k + rng.randint(0, 2)
    return e


def cases(rng, tier):
    n = n_of(tier, 3000, 50000)
    out = []
    for j in range(n):
        ty = ["tropical", "sfst", "foma", "tropical", "log"][j % 5]
        nmax = 4 if tier == "quick" else 5
        f = lambda: gen.fst(rng, nmax=nmax, arcs=6, syms=("a", "b"), pweight=0.6 if ty == "tropical" else 0.0)
        prog = [{"op": "load", "r": 0, "fst": f()}, {"op": "load", "r": 1, "fst": f()}]
        for _ in range(rng.randint(1, 3)):
            prog.append(step(rng, [0, 1]))
        out.append({"id": j, "type": ty, "N": 3 if tier == "quick" else 4, "prog": prog})
    return out
