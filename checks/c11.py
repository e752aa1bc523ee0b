import gen
from common import *
ID = "C11"
SPEC = "Lookup"
CAP = 90


def clash(fl):
    """D.F.v together with N.F.u, u # v: elimination and lookup disagree (known finding KF0)"""
    t = gen.flag_table(fl)
    return any(x[1] == "D" and y[1] == "N" and x[2] == y[2] and x[3] and x[3] != y[3] for x in t for y in t)


def acceptor(v):
    t = []
    for x in v["t"]:
        x = [x[0], x[1], x[2], x[2], x[4]]
        if not any(y[:4] == x[:4] for y in t):
            t.append(x)
    return dict(v, t=t)


def one_sided(rng, v):
    t = []
    for x in v["t"]:
        if x[2].startswith("@") and x[2] == x[3] and x[2] not in ("@I", "@U") and rng.random() < .5:
            k = rng.random()
            x = [x[0], x[1], x[2], rng.choice(["", "a", x[3]]), x[4]] if k < .6 else [x[0], x[1], rng.choice(["", "a"]), x[3], x[4]]
        if not any(y[:4] == x[:4] for y in t):
            t.append(x)
    return dict(v, t=t, a=sorted(set(v["a"]) | {"a"}))


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 10000, 40000)):
        ty = ["tropical", "sfst"][j % 2]
        while True:
            fl = gen.flagset(rng, feats=("F",) if rng.random() < .6 else ("F", "G"), vals=("x", "y") if rng.random() < .8 else ("x", "y", "z"), k=rng.randint(2, 5))
            if not clash(fl):
                break
        op = rng.choice(["eliminate_flags", "eliminate_flags", "eliminate_flag", "twosided", "paths", "lookup", "binary", "binary"])
        # chains of flags: the interesting part is their sequence
        kw = dict(nmax=6 if op != "paths" else 4, arcs=9 if op != "paths" else 5, special=rng.choice([(), (), ("@I", "@U")]), acyclic=rng.random() < .6, alpha=extra_alpha(rng))
        if ty == "tropical":
            v = gen.fst(rng, pweight=.6 if kw["acyclic"] else 0.0, **kw)
        else:
            v = gen.fst(rng, pweight=0.0, **kw)
        v = gen.with_flags(rng, v, fl, p=.5 if kw["acyclic"] else .35)
        if rng.random() < .6 and not (op == "paths" and gen.is_cyclic(gen.accessible(v))):      # a chain through the machine, so that something is accepted
            n = v["n"]
            L = rng.randint(2, 5)
            t = list(v["t"])
            seq = [rng.choice(fl + ["a"]) for _ in range(L)]
            st = [0] + [n + i for i in range(L)]
            for i, x in enumerate(seq):
                t.append([st[i], st[i + 1], x, x, 0])
            v = dict(v, n=n + L, t=t, f=v["f"] + [[n + L - 1, 0]], a=sorted(set(v["a"]) | set(seq)))
        if op == "twosided":
            v = one_sided(rng, v)
        prog = [load(0, v)]
        extra = []
        if op == "binary":
            how = rng.choice(["compose", "compose", "intersect", "concatenate", "none"])
            kw2 = dict(kw, nmax=4, arcs=6, special=("@I",) if kw["special"] else ())
            if how == "intersect":
                pass
            vs = []
            for k in range(2):
                x = gen.fst(rng, pweight=.5 if kw["acyclic"] and ty == "tropical" else 0.0, **kw2)
                if how == "intersect":
                    x = acceptor(x)
                fk = fl if k == 0 or rng.random() < .6 else [f for f in gen.flagset(rng, k=2)]
                vs.append(x if k and rng.random() < .2 else gen.with_flags(rng, x, fk, p=.4))
            v = vs[0]
            prog = [load(0, v), load(1, vs[1]), {"op": "flag_binary", "r": 0, "a": 1, "how": how}]
            extra = [f[:f.rindex(".")] + "_%d" % i + f[f.rindex("."):] if f.count(".") == 2 else f[:-1] + "_%d@" % i
                     for i in (1, 2) for f in gen.syms_of(*vs) if gen.flag_table([f])]
            extra = [x for x in extra] + [y for y in gen.syms_of(vs[1])]
        if op == "eliminate_flags":
            prog.append({"op": "eliminate_flags", "r": 0})
        elif op == "eliminate_flag":
            prog.append({"op": "eliminate_flag", "r": 0, "flag": rng.choice(["F", "F", "G"])})
            if rng.random() < .3:
                prog.append({"op": "eliminate_flags", "r": 0})
        elif op == "twosided":
            prog.append({"op": "twosided_flag_diacritics", "r": 0})
        elif op == "paths":
            cyc = gen.is_cyclic(gen.accessible(v))
            for _ in range(2):
                prog.append({"op": "x_paths", "r": 0, "max": rng.choice([-1, -1, 3]), "cycles": 0 if cyc else rng.choice([-1, 0, 1]), "fd": 1, "filter": rng.randint(0, 1)})
        elif op == "lookup":
            b = [{"op": "b_load", "r": 0, "fst": v}]
            for _ in range(3):
                e = {"op": "b_lookup", "r": 0, "word": [rng.choice(["a", "b", "c", "d"]) for _ in range(rng.randint(0, 3))], "flags": 1}
                if gen.is_cyclic(gen.accessible(v)):
                    e["cycles"] = rng.choice([0, 1])
                b.append(e)
            prog = b
        out.append({"id": j, "type": ty, "N": 2, "ft": gen.flag_table(gen.syms_of(v) | set(extra)), "prog": prog, "timeout": 3})
    return out


def known():
    v = {"n": 3, "t": [[0, 1, "@N.F.x@", "@N.F.x@", 0], [1, 2, "@D.F.y@", "@D.F.y@", 0]], "f": [[2, 0]], "a": ["", "@D.F.y@", "@I", "@N.F.x@", "@U"]}
    return [{"id": "KF1", "type": "tropical", "N": 2, "ft": gen.flag_table(gen.syms_of(v)), "prog": [load(0, v), {"op": "eliminate_flags", "r": 0}]}]
