import gen
from common import *
ID = "C04"
SPEC = "Algebra"


def _models(tier):
    return [("Laws", "Laws_C04.cfg", {"LAW": "C04", "TIER": tier})]


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 4500, 50000)):
        ty = ["tropical", "sfst", "foma"][j % 3]
        sp = rng.choice([(), (), ("@I",), ("@I", "@U")])
        op = rng.choice(["priority_union", "lenient_composition", "cross_product", "shuffle", "insert_freely", "insert_freely_tr"])
        acc = op in ("cross_product", "shuffle") and rng.random() < 0.9
        if op in ("cross_product", "shuffle") and not acc:
            sp = ()
        nm = 3 if op == "shuffle" else 4

        ka, kb = rng.choice([("@U", "@Ui"), ("@Uo", "@U")]) if op == "lenient_composition" else ("@U", "@U")   # see C02 KF1

        def f(k):
            sk = tuple(k if x == "@U" else x for x in sp)
            return gen.for_type(rng, ty, wcyclic=False, nmax=nm, arcs=6, special=sk, syms=syms(rng), alpha=extra_alpha(rng), acceptor=acc)
        prog = [load(0, f(ka)), load(1, f(kb))]
        if op == "insert_freely":
            prog = prog[:1] + [{"op": op, "r": 0, "pair": pair(rng)}]
        else:
            prog.append({"op": op, "r": 0, "a": 1})
        out.append({"id": j, "type": ty, "N": 2 if sp else 3, "prog": prog})
    return out
