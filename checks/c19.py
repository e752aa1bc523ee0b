from common import *
import xre
ID = "C19"
SPEC = "Regex"
CAP = 0
NAMES = ["Foo", "Bar", "A"]
# ill-formed: unbalanced, operands missing, not an automaton where one is required, not implemented
BAD = ["[ a", "a ]", "( a", "a )", "a | ", "| a", "a .o.", ".x. a", "~", "a &", "- b", "a => ", "a => b", "a -> ", "[ ]", "a::", "^2", "*", "a ^",
       "~[ a:b ]", "~[ a b:0 ]", "a <> b", "a ./. b", "a -> b || c", "a:b:c", "a:", "a [ b | c", "\\", "$", "a .P.", "a b ] c", "`[ a , b", "a .-u. b",
       "a <= b _ c", "{abc", "Undefined( a )", "a -> b -> ", "b => a:b _ c [", "a | | b", "a ; b ]", "\"abc"]


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 1500, 15000)):
        weighted = rng.random() < .3
        ty = rng.choice(["tropical", "tropical", "sfst", "foma"]) if not weighted else "tropical"
        prog = [{"op": "xre_new"}]
        defs, fns = {}, []
        if rng.random() < .3:
            for n in rng.sample(NAMES, rng.randint(1, 2)):
                aut = rng.random() < .6
                g = xre.Gen(rng, weighted, zero=ty != "foma", any_=rng.random() < .5, defs=list(defs.items()))
                x = g.ex(rng.randint(0, 2), aut)
                prog.append({"op": "xre_def", "name": n, "ast": xre.strip(x), "text": xre.text(rng, x)})
                defs[n] = aut
        if rng.random() < .15:
            n = rng.randint(1, 2)
            g = xre.Gen(rng, weighted, zero=ty != "foma", any_=False, nargs=n)
            x = g.ex(2, True)
            prog.append({"op": "xre_fun", "name": "Fn(", "arity": n, "ast": xre.strip(x), "text": xre.text(rng, x, "Fn(")})
            fns.append(("Fn(", n))
        if defs and rng.random() < .2:
            n = rng.choice(sorted(defs))
            prog.append({"op": "xre_undef", "name": n})
            del defs[n]
        N = 3
        for k in range(rng.choice([1, 1, 2, 3])):
            g = xre.Gen(rng, weighted, zero=ty != "foma", any_=rng.random() < .6, defs=list(defs.items()), fns=fns)
            while True:
                aut = rng.random() < .5
                x = g.ex(rng.randint(1, 4), aut)
                if xre.size(x) < 26:
                    break
            prog.append({"op": "xre", "r": k, "ast": xre.strip(x), "text": xre.text(rng, x) + rng.choice(["", ";", " ;"])})
            if not aut and ("any" in str(x) or "@U" in str(x) or any("'%s'" % o in str(x) for o in ("not", "has", "term", "once", "atmost", "restr", "before", "after", "def", "call"))):
                N = 2
            if rng.random() < .12:
                prog.append({"op": "xre_bad", "text": rng.choice(BAD)})
        out.append({"id": j, "type": ty, "N": N, "timeout": 40, "prog": prog})
    return out


def known():
    # the same defect as C02 KF1, reached by an expression
    x = ["comp", ["pair", "@U", "@U"], ["pair", "c", "@U"]]
    return [{"id": "KF1", "type": "tropical", "N": 2, "prog": [{"op": "xre_new"}, {"op": "xre", "r": 0, "ast": x, "text": "?:? .o. c:?"}]}]
