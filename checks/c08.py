import gen
from common import *
from common import pair as common_pair
ID = "C08"
SPEC = "Algebra"
SY = ["a", "b", "c", "d"]
OPS = ["substitute_symbol", "substitute_pair", "substitute_pair_set", "substitute_symbols", "substitute_pairs",
       "substitute_func", "substitute_transducer"]


def labels(v):
    return [list(x[2:4]) for x in v["t"]]


def step(rng, v):
    """designates mostly labels that occur in v"""
    occ = labels(v)

    def pair(rng):
        if occ and rng.random() < 0.6:
            return list(rng.choice(occ))
        return common_pair(rng)
    op = rng.choice(OPS)
    e = {"op": op, "r": 0}
    if op == "substitute_symbol":
        e.update(old=rng.choice(SY), new=rng.choice(SY + [""]), i=rng.choice([1, 1, 0]), o=rng.choice([1, 1, 0]))
    elif op == "substitute_pair":
        e.update(old=pair(rng), new=pair(rng))
    elif op == "substitute_pair_set":
        e.update(old=pair(rng), new=[pair(rng) for _ in range(rng.randint(1, 3))])
    elif op == "substitute_symbols":
        e["map"] = [[x, rng.choice(SY + [""])] for x in rng.sample(SY, rng.randint(1, 3))]
    elif op == "substitute_pairs":
        m = {}
        for _ in range(rng.randint(1, 3)):
            m[tuple(pair(rng))] = pair(rng)
        e["map"] = [[list(k), v] for k, v in m.items()]
    elif op == "substitute_transducer":
        old = pair(rng)      # "@U" / "@I" are not designated here: harmonization with the graft may expand them first
        e.update(a=1, old=common_pair(rng) if set(old) & {"@U", "@I"} else old)
    return e


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 5000, 50000)):
        ty = ["tropical", "sfst", "foma"][j % 3]
        sp = rng.choice([(), (), ("@I", "@U")])

        def f():
            return gen.for_type(rng, ty, nmax=4, arcs=7, special=sp, syms=rng.choice([("a", "b"), ("a", "b", "c")]), alpha=extra_alpha(rng))
        v = f()
        if rng.random() < 0.4:      # many arcs, few labels
            v = gen.for_type(rng, ty, nmax=4, arcs=8, special=sp, syms=("a", "b"), peps=0.1, acceptor=rng.random() < .6)
        prog = [load(0, v), load(1, f())] + [step(rng, v) for _ in range(rng.randint(1, 2))]
        out.append({"id": j, "type": ty, "N": 2 if sp else 3, "prog": prog})
    return out
