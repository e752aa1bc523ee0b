import gen
from common import *
ID = "C12"
SPEC = "Lookup"
CAP = 0


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 6000, 50000)):
        fl = gen.flagset(rng, feats=("F",), k=2) if rng.random() < .25 else []
        cyc = rng.random() < .5
        v = gen.fst(rng, nmax=4, arcs=7 if not cyc else 6, special=rng.choice([(), ("@I", "@U"), ("@I",)]), acyclic=not cyc, alpha=extra_alpha(rng),
                    pweight=.6, peps=rng.choice([.1, .3, .5]))
        if fl:
            v = gen.with_flags(rng, v, fl, p=.3)
        prog = [{"op": "b_load", "r": 0, "fst": v}]
        for _ in range(rng.randint(2, 5)):
            L = rng.choice([0, 1, 1, 2, 2, 3])
            e = {"op": "b_lookup", "r": 0, "word": [rng.choice(["a", "b", "a", "b", "c", "d"]) for _ in range(L)], "flags": rng.randint(0, 1) if fl else 0}
            if cyc or rng.random() < .2:
                e["cycles"] = rng.choice([0, 0, 1, 1, 2])
            if rng.random() < .25:
                e["maxw"] = rng.choice([0, 2, 4, 8])
            if rng.random() < .25:
                e["max"] = rng.choice([0, 1, 2, 4])
            prog.append(e)
            if rng.random() < .3:
                prog.append({"op": "b_lookup_inf_amb", "r": 0, "word": e["word"], "flags": e["flags"]})
        if rng.random() < .2:
            prog.append({"op": "b_inf_amb", "r": 0})
        out.append({"id": j, "type": "tropical", "N": 3, "ft": gen.flag_table(gen.syms_of(v)), "prog": prog, "timeout": 10})
    return out
