import gen
from common import *
ID = "C23"
SPEC = "Algebra"


def rule(rng, ty, ident):
    """a deterministic rule that lets most pairs through"""
    n = rng.randint(1, 3)
    t = []
    pairs = [["a", "a"], ["b", "b"], ["a", "b"], ["b", "a"], ["a", ""], ["", "b"]] + ([["@I", "@I"]] if ident else [])
    w = lambda: rng.randint(0, 4) if ty == "tropical" else 0
    for q in range(n):
        for p in pairs:
            if rng.random() < 0.7:
                t.append([q, rng.randrange(n)] + p + [w()])
    return {"n": n, "t": t, "f": [[q, w()] for q in range(n) if rng.random() < .8 or q == n - 1], "a": ["", "@I", "@U", "a", "b"]}


def dense(rng, j):
    ty = rng.choice(["tropical", "tropical", "sfst", "foma"])
    ident = rng.random() < .3
    prog = [load(0, gen.for_type(rng, ty, special=("@I",) if ident else (), nmax=4, arcs=6, wcyclic=False))]
    n = rng.choice([1, 2, 2, 3, 4])
    for k in range(n):
        v = rule(rng, ty, ident)
        prog.append(load(2 + k, gen.accessible(v) if ty == "foma" else v))
    prog.append({"op": "compose_intersect", "r": 0, "rules": list(range(2, 2 + n)), "inv": rng.randint(0, 1)})
    return {"id": j, "type": ty, "N": 3, "prog": prog}


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 3600, 40000)):
        ty = ["tropical", "sfst", "foma"][j % 3]
        if j % 2:
            out.append(dense(rng, j))
            continue
        ls = rng.choice([(), ("@I",), ("@I", "@U")])
        rs = rng.choice([(), ("@I",)])
        kw = dict(nmax=4, arcs=6)
        prog = [load(0, gen.for_type(rng, ty, special=ls, wcyclic=False, **kw))]
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        for k in range(n):
            v = gen.for_type(rng, ty, special=rs, wcyclic=False, pfinal=0.7, **kw)
            if ls:            # KF1: rules whose alphabets differ, with identities in the lexicon
                v["a"] = sorted(set(v["a"]) | {"a", "b"})
            prog += [load(2 + k, v), {"op": rng.choice(["determinize", "minimize"]), "r": 2 + k}]
        prog.append({"op": "compose_intersect", "r": 0, "rules": list(range(2, 2 + n)), "inv": rng.randint(0, 1)})
        out.append({"id": j, "type": ty, "N": 2 if ls or rs else 3, "prog": prog})
    return out


def known():
    sp = ["", "@I", "@U"]
    return [{"id": "KF1", "type": "tropical", "N": 2, "prog": [
        load(0, {"n": 2, "t": [[0, 1, "@I", "@I", 0]], "f": [[1, 0]], "a": sp}),
        load(2, {"n": 1, "t": [[0, 0, "@I", "@I", 0]], "f": [[0, 0]], "a": sp}),
        load(3, {"n": 1, "t": [[0, 0, "@I", "@I", 0]], "f": [[0, 0]], "a": sp + ["b"]}),
        {"op": "compose_intersect", "r": 0, "rules": [2, 3], "inv": 0}]}]
