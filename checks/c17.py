import gen
from common import *
ID = "C17"
SPEC = "Basic"
CAP = 90
SY = ["a", "b", "c", "@P.F.x@"]
FLAGS = ["@P.F.x@", "@R.F.x@", "@D.G@", "@U.G.y@", "@C.F@"]
NOTFLAGS = ["@", "@P@", "@X.F.x@", "@PF.x@", "@_a_@", "@P.F.x", "P.F.x@"]


def sym(rng, ss=("a", "b", "c"), p=0.15):
    return rng.choice(["", "@I", "@U"]) if rng.random() < p else rng.choice(ss)


def pr(rng):
    return [sym(rng), sym(rng)] if rng.random() < .5 else [sym(rng)] * 2


def q(rng, r):
    op = rng.choice(["b_is_final", "b_get_final", "b_transitions", "b_index", "b_max_state", "b_states", "b_alphabet", "b_symbols_used",
                     "b_inputs", "b_outputs", "b_pairs", "b_inf_amb"])
    e = {"op": op, "r": r}
    if op in ("b_is_final", "b_get_final", "b_transitions", "b_index"):
        e["s"] = rng.randint(0, 5)
    return e


def subst(rng, r):
    op = rng.choice(["b_substitute_symbol", "b_substitute_pair", "b_substitute_pair_set", "b_substitute_symbols", "b_substitute_pairs",
                     "b_substitute_func", "b_remove_transitions"])
    e = {"op": op, "r": r}
    if op == "b_substitute_symbol":
        e.update(old=sym(rng), new=sym(rng), i=rng.choice([1, 1, 0]), o=rng.choice([1, 1, 0]))
    elif op == "b_substitute_pair":
        e.update(old=pr(rng), new=pr(rng))
    elif op == "b_substitute_pair_set":
        e.update(old=pr(rng), new=[pr(rng) for _ in range(rng.randint(0, 3))])
    elif op == "b_substitute_symbols":
        e["map"] = [[x, sym(rng)] for x in rng.sample(["a", "b", "c", ""], rng.randint(1, 3))]
    elif op == "b_substitute_pairs":
        m = {}
        for _ in range(rng.randint(1, 3)):
            m[tuple(pr(rng))] = pr(rng)
        e["map"] = [[list(k), v] for k, v in m.items()]
    elif op == "b_remove_transitions":
        e["pair"] = pr(rng)
    return e


def edit(rng, r):
    op = rng.choice(["b_add_state", "b_add_transition", "b_add_transition", "b_remove_transition", "b_remove_transition", "b_set_final", "b_remove_final",
                     "b_add_symbol", "b_remove_symbol", "b_add_symbols", "b_remove_symbols", "b_prune_alphabet", "b_insert_freely", "b_insert_freely_set",
                     "b_sort_arcs", "b_complete", "b_copy", "b_assign"])
    e = {"op": op, "r": r}
    if op == "b_add_state":
        if rng.random() < .5:
            e["s"] = rng.randint(0, 5)
    elif op in ("b_add_transition", "b_remove_transition"):
        p = pr(rng)
        e.update(s=rng.randint(0, 4), d=rng.randint(0, 4), i=p[0], o=p[1], w=rng.randint(0, 4), flag=rng.choice([0, 1, 1]))
    elif op == "b_set_final":
        e.update(s=rng.randint(0, 5), w=rng.randint(0, 4))
    elif op == "b_remove_final":
        e.update(s=rng.randint(0, 5))
    elif op in ("b_add_symbol", "b_remove_symbol"):
        e["sym"] = rng.choice(["a", "b", "c", "d"])
    elif op in ("b_add_symbols", "b_remove_symbols"):
        e["syms"] = rng.sample(["a", "b", "c", "d"], 2)
    elif op == "b_prune_alphabet":
        e["flag"] = rng.choice([0, 1])
    elif op == "b_insert_freely":
        e.update(pair=pr(rng), w=rng.randint(0, 2))
    elif op == "b_insert_freely_set":
        e.update(pairs=[pr(rng) for _ in range(rng.randint(0, 3))], w=rng.randint(0, 2))
    elif op in ("b_copy", "b_assign"):
        e["a"] = 1 - r
    return e


def bload(r, v):
    return {"op": "b_load", "r": r, "fst": v}


def dup_arcs(rng, v):
    """several equally labelled arcs from one state, next to each other"""
    for x in list(v["t"]):
        if rng.random() < .4:
            v["t"].append([x[0], rng.randrange(v["n"]), x[2], x[3], x[4]])
    v["t"] = [list(y) for y in sorted(set(tuple(x) for x in v["t"]))]
    return v


def det(rng):
    v = gen.fst(rng, nmax=4, arcs=7, syms=("a", "b"), peps=0)
    seen, t = set(), []
    for x in v["t"]:
        if (x[0], x[2], x[3]) not in seen:
            seen.add((x[0], x[2], x[3]))
            t.append(x)
    v["t"] = t
    return v


def one(rng, kind):
    sp = rng.choice([(), ("@I", "@U")])
    m = lambda **k: gen.fst(rng, **dict(dict(nmax=4, arcs=6, special=sp, alpha=extra_alpha(rng)), **k))
    if kind in ("edit", "edit2"):
        prog = [{"op": "b_new", "r": 0} if rng.random() < .4 else bload(0, m()), bload(1, dup_arcs(rng, m()))]
        for _ in range(rng.randint(5, 9)):
            r = rng.choice([0, 1])
            x = rng.random()
            prog.append(edit(rng, r) if x < .5 else subst(rng, r) if x < .75 else q(rng, r))
        prog += [{"op": "b_states", "r": 0}, {"op": "b_states", "r": 1}]
    elif kind == "subst":
        prog = [bload(0, dup_arcs(rng, m(arcs=8)))] + [subst(rng, 0) for _ in range(rng.randint(1, 3))] + [q(rng, 0)]
    elif kind == "trie":
        prog = [{"op": "b_new", "r": 0}]
        for _ in range(rng.randint(2, 6)):
            prog.append({"op": "b_disjunct", "r": 0, "w": rng.randint(0, 4),
                         "path": [[rng.choice("ab"), rng.choice("ab")] if rng.random() < .4 else [rng.choice("abc")] * 2 for _ in range(rng.randint(0, 3))]})
    elif kind == "graft":
        a = dup_arcs(rng, gen.fst(rng, nmax=3, arcs=5, special=sp))
        b = gen.fst(rng, nmax=3, arcs=4, special=sp)
        prog = [bload(0, a), bload(1, b)]
        op = rng.choice(["b_substitute_graph", "b_substitute_graph", "b_insert_freely_graph", "b_insert_transducer", "b_substitute_map"])
        e = {"op": op, "r": 0, "a": 1}
        if op == "b_substitute_graph":
            e["old"] = rng.choice([[x[2], x[3]] for x in a["t"]] or [["a", "a"]])
        elif op == "b_insert_transducer":
            e.update(s=rng.randrange(a["n"]), s2=rng.randrange(a["n"]))
        elif op == "b_substitute_map":
            prog.append(bload(2, gen.fst(rng, nmax=2, arcs=3, special=sp)))
            for x in a["t"]:
                if rng.random() < .8:
                    x[3] = x[2]
            e["map"] = [["a", 1]] + ([["b", 2]] if rng.random() < .6 else [])
        prog += [e, {"op": "b_states", "r": 1}]
    elif kind == "inter":
        prog = [bload(0, det(rng)), bload(1, det(rng)), {"op": "b_intersect", "r": 0, "a": 1}]
    elif kind == "harm":
        prog = [bload(0, m(syms=syms(rng), special=("@I", "@U"))), bload(1, m(syms=syms(rng), special=("@I", "@U"))), {"op": "b_harmonize", "r": 0, "a": 1}]
    elif kind == "acyclic":
        prog = [bload(0, m(acyclic=True, nmax=5, arcs=8)), {"op": "b_longest", "r": 0}, {"op": "b_topsort", "r": 0}]
    elif kind == "infamb":
        prog = [bload(0, m(nmax=4, arcs=8, peps=0.4))] + [{"op": "b_lookup_inf_amb", "r": 0, "word": [rng.choice("abx") for _ in range(rng.randint(0, 3))]}
                                                        for _ in range(2)] + [{"op": "b_inf_amb", "r": 0}]
    elif kind == "neg":
        v = m(nmax=4, arcs=8, peps=0.8)
        for x in v["t"]:
            x[4] = rng.randint(-3, 4)
        prog = [bload(0, v), {"op": "b_neg_cycles", "r": 0}]
    elif kind == "flags":
        ss = rng.sample(FLAGS, 3) + rng.sample(NOTFLAGS, 2) + ["a"]
        v = m(syms=ss, special=())
        feats = {"F": ["@P.F.x@", "@R.F.x@", "@C.F@"], "G": ["@D.G@", "@U.G.y@"], "": FLAGS, "H": []}
        f = rng.choice(["F", "G", "", "H"])
        prog = [bload(0, v), {"op": "b_flags", "r": 0, "allflags": FLAGS}, {"op": "b_flag_purge", "r": 0, "flag": f, "purged": feats[f]},
                {"op": "b_flags", "r": 0, "allflags": FLAGS}]
    return prog


KINDS = ["edit", "subst", "graft", "edit2", "trie", "inter", "harm", "acyclic", "graft", "infamb", "neg", "flags"]


def cases(rng, tier):
    return [{"id": j, "type": "tropical", "N": 3, "prog": one(rng, KINDS[j % len(KINDS)])} for j in range(n_of(tier, 2400, 30000))]
