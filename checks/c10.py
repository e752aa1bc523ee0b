import gen
from common import *
ID = "C10"
SPEC = "Lookup"
CAP = 120


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 10000, 50000)):
        ty = ["tropical", "sfst", "foma", "tropical", "log"][j % 5]
        fl = gen.flagset(rng, feats=("F",) if rng.random() < .5 else ("F", "G"), k=rng.randint(2, 4)) if rng.random() < .5 else []
        kind = rng.choice(["acyclic", "acyclic", "cyclic", "cyclic"] + ["longest"] * (ty != "log"))
        acyc = kind != "cyclic"
        kw = dict(nmax=5 if acyc else 3, arcs=7 if acyc else 4, special=rng.choice([(), (), ("@I", "@U")]), acyclic=acyc, alpha=extra_alpha(rng))
        if kind == "longest":
            kw["peps"] = 0.0
            kw["special"] = ()
        if ty in ("tropical", "log"):
            v = gen.fst(rng, pweight=.6, **kw)
        else:
            v = gen.for_type(rng, ty, **kw)
        if fl:
            v = gen.with_flags(rng, v, fl)
        if ty == "foma":
            v = gen.accessible(v)
        ft = gen.flag_table(gen.syms_of(v))
        prog = [load(0, v)]
        if kind == "longest":
            for ob in (0, 1):
                prog += [{"op": "x_longest", "r": 0, "obey": ob}, {"op": "x_longest_size", "r": 0, "obey": ob}]
            prog = [prog[0]] + [rng.choice(prog[1:])]
            out.append({"id": j, "type": ty, "N": 3, "ft": ft, "prog": prog, "timeout": 10})
            continue
        for _ in range(rng.randint(1, 3)):
            q = rng.random()
            if q < .7:
                e = {"op": "x_paths", "r": 0, "max": rng.choice([-1, 0, 1, 2, 3, 5]), "cycles": rng.choice([-1, 0, 1, 1]), "fd": rng.randint(0, 1), "filter": rng.randint(0, 1)}
                if kind == "cyclic" and e["cycles"] < 0:
                    if gen.is_cyclic(gen.accessible(v)) and (fl or gen.trim(v) != v or not v["f"]):
                        e["cycles"] = 0
                prog.append(e)
            elif q < .85 or kind == "cyclic":
                prog.append({"op": "x_random", "r": 0, "max": rng.choice([0, 1, 3]), "fd": rng.randint(0, 1), "filter": rng.randint(0, 1)})
            elif ty != "log":
                prog.append({"op": "x_shortest", "r": 0})
        prog.append({"op": "has_flags", "r": 0})
        out.append({"id": j, "type": ty, "N": 3, "ft": ft, "prog": prog, "timeout": 10})
    return out


def known():
    # the arc a: with input epsilon counts as a symbol of the path, although its input side is shorter
    v = {"n": 3, "t": [[0, 1, "a", "a", 0], [0, 2, "", "b", 0], [2, 1, "a", "a", 0]], "f": [[1, 0]], "a": ["", "@I", "@U", "a", "b"]}
    return [{"id": "KF1", "type": "tropical", "N": 3, "ft": [], "prog": [load(0, v), {"op": "x_longest", "r": 0, "obey": 0}]}]
