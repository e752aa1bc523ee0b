import gen
from common import *
ID = "C07"
SPEC = "Algebra"


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 4500, 50000)):
        ty = ["tropical", "sfst", "foma", "log"][j % 4]
        sp = rng.choice([(), (), ("@I", "@U")])
        v = gen.for_type(rng, ty, nmax=5, arcs=9, special=sp, alpha=extra_alpha(rng),
                         syms=rng.choice([("a", "b"), ("a", "b", "ä", "<x>"), ("+Sg", "0", " ")]))
        v = gen.accessible(v)       # libfoma's is_cyclic is wrong on unreachable states
        prog = [load(0, v)]
        ts = ["tropical", "sfst", "foma", "log"]
        if any(w for *_, w in v["t"]) or any(w for _, w in v["f"]):
            ts = ["tropical", "log", "tropical"] if rng.random() < 0.5 else ts
        for _ in range(rng.randint(1, 3)):
            prog.append({"op": "convert", "r": 0, "to": rng.choice(ts)})
        if rng.random() < 0.5 and prog[-1]["to"] != "log":
            prog.append({"op": "query", "r": 0})
        out.append({"id": j, "type": ty, "N": 2 if sp else 3, "prog": prog})
    return out
