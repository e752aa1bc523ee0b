from common import *
import xre
ID = "C20"
SPEC = "Regex"
CAP = 0
EPS = ["eps"]
BAD = ["[ a:b ] -> c", "a -> [ b:c ]", "[ a:b ] -> c ,, d -> e", "a ->", "-> b", "a -> b ||", "a -> b || c", "a -> b || [ a:b ] _ c", "a -> b // _ [ b:c ]",
       "a -> b || _ c _", "a -> b ,,", "a -> b @-> c", "a @-> [ x:y ] || b _ "]


def side(rng, any_, d=1, nz=True):
    g = xre.Gen(rng, False, any_=any_, odd=0, syms=["a", "b"] if rng.random() < .6 else ["a", "b", "c"])
    g.plain = True
    while True:
        x = g.ex(rng.randint(0, d), True, nz)
        s = str(x)
        if nz and ("star" in s or "opt" in s or "eps" in s or "less" in s or "pow" in s or "range" in s or "up" in s or "low" in s):
            continue
        if xre.size(x) < 9:
            return x


def lower(rng, weighted):
    q = rng.random()
    if q < .2:
        return EPS
    x = ["sym", rng.choice(["a", "b", "x", "y"])] if q < .7 else ["cat", ["sym", "x"], ["sym", rng.choice("ay")]] if q < .85 else ["or", ["sym", "x"], ["sym", rng.choice("by")]]
    # weights only where the image cannot equal the factor: OpenFst's
    # determinization need not terminate on weighted ambiguous cycles
    if weighted and rng.random() < .5 and not any(c in str(x) for c in ("'a'", "'b'")):
        x = ["weight", x, rng.randint(1, 4)]
    return x


def context(rng, any_):
    def one():
        q = rng.random()
        return EPS if q < .35 else side(rng, any_, 1, rng.random() < .8)
    return {"l": one(), "lb": int(rng.random() < .12), "r": one(), "rb": int(rng.random() < .12)}


def rule(rng, kinds, any_, weighted, maxmaps, types):
    maps = []
    for _ in range(rng.randint(1, maxmaps)):
        k = rng.choice(kinds)
        maps.append({"kind": k, "a": EPS if k == "ins" else side(rng, any_), "b": lower(rng, weighted), "b2": lower(rng, weighted) if k == "mark" else EPS})
    cs = [context(rng, any_) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
    return {"maps": maps, "type": rng.choice(types), "ctx": cs}


def text(rng, rules, arrow, inv):
    P = xre.Printer(rng)

    def at(x):
        t = P.at(x, 6)
        return t
    out = []
    for r in rules:
        ms = []
        for m in r["maps"]:
            if m["kind"] == "ins":
                ms.append("[. .] -> " + at(m["b"]))
            elif m["kind"] == "mark":
                ms.append(at(m["a"]) + " " + arrow + " " + ("" if m["b"] == EPS and m["b2"] != EPS else at(m["b"])) + " ... " + ("" if m["b2"] == EPS and m["b"] != EPS else at(m["b2"])))
            elif inv:
                ms.append(at(m["b"]) + " " + {"->": "<-", "(->)": "(<-)"}[arrow] + " " + at(m["a"]))
            else:
                ms.append(at(m["a"]) + " " + arrow + " " + at(m["b"]))
        t = " , ".join(ms)
        if r["ctx"]:
            cs = []
            for c in r["ctx"]:
                l = "" if c["l"] == EPS else at(c["l"])
                rr = "" if c["r"] == EPS else at(c["r"])
                cs.append((".#. " if c["lb"] else "") + l + " _ " + rr + (" .#." if c["rb"] else ""))
            t += " " + r["type"] + " " + " , ".join(cs)
        out.append(t)
    return " ,, ".join(out)


def one(rng, any_, weighted):
    q = rng.random()
    inv = 0
    if q < .1:
        arrow, rules = "[..]", [rule(rng, ["ins"], any_, weighted, 1, ["||"])]
        if not rules[0]["ctx"] and rng.random() < .5:
            rules[0]["ctx"] = [context(rng, any_)]
    elif q < .6:
        arrow = rng.choice(["->", "->", "(->)"])
        inv = int(rng.random() < .12)
        n = rng.choice([1, 1, 1, 2])
        kinds = ["plain"] if inv else ["plain", "plain", "plain", "mark"]
        # contexts on the lower side of an obligatory rule: one image for every
        # factor (with several, hfst loses some: known finding KF1)
        if arrow == "->" and rng.random() < .4:
            rules = []
            for k in range(n):
                r = rule(rng, kinds, any_, weighted, 1, ["//", "\\\\", "\\/"])
                m = r["maps"][0]
                if n == 2:
                    m["a"] = ["sym", "ab"[k]]
                for f in ("b", "b2"):
                    while "or" in str(m[f]):
                        m[f] = lower(rng, weighted)
                rules.append(r)
        else:
            ty = ["||"] if arrow == "->" else ["||", "||", "//", "\\\\", "\\/"]
            rules = [rule(rng, kinds, any_, weighted, rng.choice([1, 1, 2]), ty) for _ in range(n)]
    else:
        arrow = rng.choice(["@->", "@->", "@>", "->@", ">@"])
        rules = [rule(rng, ["plain", "plain", "plain", "mark"], any_, weighted, 1, ["||"])]
    return arrow, rules, inv


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 600, 8000)):
        weighted = rng.random() < .2
        any_ = not weighted and rng.random() < .3
        ty = rng.choice(["tropical", "tropical", "sfst", "foma"]) if not weighted else "tropical"
        arrow, rules, inv = one(rng, any_, weighted)
        prog = [{"op": "xre_new"}, {"op": "repl", "r": 0, "arrow": arrow, "rules": rules, "inv": inv, "text": text(rng, rules, arrow, inv)}]
        if rng.random() < .06:      # ill-formed: refused, and the compiler works on
            prog.insert(1, {"op": "xre_bad", "text": rng.choice(BAD)})
        out.append({"id": j, "type": ty, "N": 3, "timeout": 60, "prog": prog})
    return out


def known():
    r = {"maps": [{"kind": "plain", "a": ["sym", "b"], "b": ["or", ["sym", "x"], ["sym", "b"]], "b2": EPS}], "type": "//", "ctx": [{"l": ["sym", "b"], "lb": 0, "r": EPS, "rb": 0}]}
    return [{"id": "KF1", "type": "tropical", "N": 3, "prog": [{"op": "xre_new"}, {"op": "repl", "r": 0, "arrow": "->", "rules": [r], "inv": 0, "text": "b -> [ x | b ] // b _"}]}]
