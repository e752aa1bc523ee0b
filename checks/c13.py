import gen
from common import *
ID = "C13"
SPEC = "Lookup"
CAP = 0
SP = [["ab", ["a", "b"]], ["aba", ["a", "b", "a"]], ["äb", ["ä", "b"]], ["bé", ["b", "é"]]]


def silent_cycle(v, fl):
    t = [x for x in v["t"] if x[2] == "" or x[2] in fl]
    return gen.is_cyclic(dict(v, t=t))


def fit(v, fl, chars):
    """words whose characters are known only to the output side are a known finding (see known())"""
    ins = {x[2] for x in v["t"]}
    meta = {"@I", "@U"} & ins
    if not meta:
        return chars
    only = {s for s in v["a"] if s not in ins and len(s) == 1}
    return [c for c in chars if c not in only]


def case(j, v, fl, ty, prog, **kw):
    return dict({"id": j, "type": "tropical", "N": 2 if len(v["a"]) > 5 else 3, "ft": gen.flag_table(gen.syms_of(v)), "sp": SP, "prog": prog, "timeout": 10}, **kw)


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 8000, 60000)):
        fl = gen.flagset(rng, feats=("F",) if rng.random() < .5 else ("F", "G"), k=2) if rng.random() < .35 else []
        syms = rng.choice([("a", "b"), ("a", "b", "ab"), ("a", "b", "ab", "aba"), ("a", "ä", "äb", "é"), ("a", "b", "bé", "c"), ("ab", "a")])
        ac = rng.random() < .5
        v = gen.fst(rng, nmax=5 if ac else 4, arcs=9 if ac else 6, syms=syms, special=rng.choice([(), ("@I", "@Ui"), ("@I",), ("@I", "@Uo")]), acyclic=ac,
                    alpha=rng.choice([(), (), ("c",), ("ab",)]), pweight=.6, peps=rng.choice([.1, .2, .4]))
        if fl:
            v = gen.with_flags(rng, v, fl, p=.4)
        v = dict(v, t=[x for x in v["t"] if not (x[2] == "@U" and x[3] == "@U") and not (x[3] == "@U" and x[2] not in ("@U", "@I"))])
        if not v["t"] and rng.random() < .8:
            continue
        ty = rng.choice(["olw", "olw", "ol"])
        if ty == "ol":
            v = dict(v, t=[x[:4] + [0] for x in v["t"]], f=[[q, 0] for q, _ in v["f"]])
        loop = silent_cycle(v, fl)
        prog = [load(0, v), {"op": "to_ol", "r": 0, "to": ty, "opts": rng.choice(["", "", "quick"])}]
        for _ in range(rng.randint(2, 5)):
            L = rng.choice([0, 1, 2, 2, 3, 4])
            cs = fit(v, fl, [rng.choice(["a", "b", "a", "b", "ä", "é", "c", "d"] if "ä" in syms or rng.random() < .3 else ["a", "b", "a", "b", "c"]) for _ in range(L)])
            e = {"r": 0, "str": "".join(cs), "chars": cs}
            q = rng.random()
            if loop or q < .2:
                e["op"] = "ol_inf"
            elif q < .8:
                e.update(op="ol_lookup", plain=rng.randint(0, 1), limit=rng.choice([-1, -1, -1, 0, 1, 2, 5]))
            else:
                e.update(op="ol_pairs", limit=rng.choice([-1, -1, 1, 3]))
            prog.append(e)
            if rng.random() < .15:
                prog.append({"op": "reload", "r": 0, "to": ty})
        if rng.random() < .3 and not loop:
            prog.append({"op": "ol_back", "r": 0})
        out.append(case(j, v, fl, ty, prog))
    return out


def known():
    v = {"n": 2, "t": [[0, 1, "a", "c", 0], [0, 1, "@I", "@I", 0]], "f": [[1, 0]], "a": ["", "@I", "@U", "a", "c"]}
    k1 = case("KF1", v, [], "olw", [load(0, v), {"op": "to_ol", "r": 0, "to": "olw"}, {"op": "ol_lookup", "r": 0, "str": "c", "chars": ["c"], "plain": 0, "limit": -1}])
    v = {"n": 3, "t": [[0, 1, "a", "a", 0], [1, 2, "b", "b", 0], [0, 2, "ab", "c", 0]], "f": [[2, 0]], "a": ["", "@I", "@U", "a", "ab", "b", "c"]}
    k2 = case("KF2", v, [], "olw", [load(0, v), {"op": "to_ol", "r": 0, "to": "olw"}, {"op": "ol_lookup", "r": 0, "word": ["a", "b"], "toks": ["a", "b"], "plain": 0, "limit": -1}])
    return [k1, k2]
