import gen
from common import *
ID = "C15"
SPEC = "Text"
CAP = 0
SETS = [("a", "b"), ("a", "ä"), ("a b", "c"), ("0", "?"), ("@", "a"), ("\t", "a"), (" ", ":"), ("\\", "\""), ("a\\", "b\""), ("a,b", "(x)."), ("x" * 110, "y"), ("z" * 300, "@0"),
        ("--", "-"), ("#", "%"), ("a\\\"", "\\\\"), ("''", "a:b"), ("\"\"", "5")]
ESC = {" ": "@_SPACE_@", "\t": "@_TAB_@"}


def value(rng, ty, ss, arcs=7):
    v = gen.fst(rng, nmax=4, arcs=arcs, special=rng.choice([(), ("@I", "@U"), ("@I",), ("@U",)]), syms=ss, alpha=rng.choice([(), (), ("c",), ("c d",), ("0", "?")]),
                pweight=.6 if ty in ("tropical",) else 0)
    return gen.accessible(v) if ty == "foma" else v


def toks_att(s, rng):
    m = {"": "@0@", "@I": "@_IDENTITY_SYMBOL_@", "@U": "@_UNKNOWN_SYMBOL_@"}
    if s in m:
        return [m[s]]
    return [ESC.get(c, "@_COLON_@" if c == ":" and rng.random() < .3 else c) for c in s]


def toks_pro(s):
    m = {"": "0", "@I": "?", "@U": "?", "0": "%0", "?": "%?"}
    return [m[s]] if s in m else [("\\" + c) if c in "\\\"" else c for c in s]


def lines_att(rng, v, eps, weights):
    ls = []
    for s, t, i, o, w in v["t"]:
        ti, to = toks_att(i, rng), toks_att(o, rng)
        if eps != "@0@":
            ti, to = [[eps] if (x == ["@0@"] and rng.random() < .7) else x for x in (ti, to)]
        d = {"k": "arc", "s": s, "t": t, "i": ti, "o": to}
        if w or (weights and rng.random() < .7):
            d["w"] = w
        ls.append(d)
    for s, w in v["f"]:
        d = {"k": "fin", "s": s}
        if w or (weights and rng.random() < .7):
            d["w"] = w
        ls.append(d)
    if rng.random() < .5:
        rng.shuffle(ls)
    return ls


def lines_pro(rng, v, name):
    ls = [{"k": "sym", "name": name, "i": toks_pro(s)} for s in v["a"] if s not in ("", "@I", "@U")]
    for s, t, i, o, w in v["t"]:
        d = {"k": "arc", "name": name, "s": s, "t": t, "i": toks_pro(i)}
        if i == o and i != "@U":
            d["one"] = 1
        else:
            d["o"] = toks_pro(o)
        if w or rng.random() < .3:
            d["w"] = w
        ls.append(d)
    for s, w in v["f"]:
        d = {"k": "fin", "name": name, "s": s}
        if w or rng.random() < .3:
            d["w"] = w
        ls.append(d)
    if rng.random() < .5:
        rng.shuffle(ls)
    return [{"k": "net", "name": name}] + ls


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 5000, 40000)):
        fmt = "att" if j % 5 < 3 else "prolog"
        ss = rng.choice(SETS)
        ty = rng.choice(["tropical", "tropical", "sfst", "foma"])
        prog = []
        if rng.random() < .6:
            n = rng.randint(1, 3)
            for r in range(n):
                prog.append(load(r, value(rng, ty, ss), ty=ty, type=ty))
            w = rng.choice([0, 1])
            how = rng.choice(["FILE", "FILE", "stream", "buf", "name", "print", "num"])
            if how == "num" and fmt == "att" and rng.random() < .7:
                ss = rng.choice([("a", "b"), ("x" * 110, "a b")])
            if how == "print" or how == "stream" and rng.random() < .5:
                w = 1
            if how == "print" and ty != "tropical" and fmt == "att":
                w = 0
            for k in range(rng.randint(1, 3)):
                d = {"op": "text_write", "r": rng.randrange(n), "fmt": fmt, "how": how, "weights": w, "name": rng.choice(["NET", "x_1", "a b"]), "file": "" if how == "num" else "f"}
                if rng.random() < .03 and fmt == "prolog":
                    d.update(name="a,b", comma=1, file="")
                prog.append(d)
            if any(p.get("file") == "f" for p in prog):
                prog.append({"op": "text_read", "file": "f", "fmt": fmt, "how": rng.choice(["FILE", "bFILE", "istream", "old"]), "type": ty, "eps": "@0@"})
        else:
            lines = []
            eps = rng.choice(["@0@", "@0@", "<>", "e"]) if fmt == "att" else "@0@"
            for k in range(rng.choice([0, 1, 1, 2, 3])):
                v = value(rng, ty, ss)
                if lines:
                    lines.append({"k": "sep"})
                if fmt == "att":
                    lines += lines_att(rng, v, eps, ty == "tropical")
                else:
                    lines += lines_pro(rng, v, "n%d" % rng.randrange(2))
            if fmt == "att" and rng.random() < .1:
                lines.insert(rng.randint(0, len(lines)), {"k": "bad", "text": rng.choice(["0\t1\ta", "1 2 3", " ", "\t"])})
            if fmt == "prolog" and rng.random() < .2:
                q = rng.random()
                if q < .3:
                    lines.insert(0, {"k": "com", "text": "# comment"})
                else:
                    lines.insert(rng.randint(0, len(lines)), {"k": "bad", "text": rng.choice(["arc(n0, 0, 1, \"a)", "foo", "arc(n0, 0, 1, \"a\":\"b\":\"c\").", "final(n0).", "network(n0)", "arc(n0, 0, 1, a).",
                                                                                           "symbol(n0, a).", "arc(n0, 0, 1, \"a\")", "final(n0, 0, x)."])})
            prog.append({"op": "text_put", "file": "f", "fmt": fmt, "lines": lines, "sep": "\t" if rng.random() < .7 else rng.choice([" ", "  ", "\t "]), "nonl": 1 if rng.random() < .2 and lines and lines[-1]["k"] not in ("sep", "bad") else 0,
                         "crlf": 1 if rng.random() < .15 and not any(l["k"] in ("sep", "bad", "com") for l in lines) else 0})
            prog.append({"op": "text_read", "file": "f", "fmt": fmt, "how": rng.choice(["FILE", "bFILE", "istream", "old"]), "type": ty, "eps": eps})
        out.append({"id": j, "type": "tropical", "N": 2, "timeout": 40, "prog": prog})
    return out


def known():
    v = {"n": 2, "t": [[0, 1, "%0", "%0", 0]], "f": [[1, 0]], "a": ["", "@I", "@U", "%0"]}
    w = {"n": 2, "t": [[0, 1, "a\n", "b", 0]], "f": [[1, 0]], "a": ["", "@I", "@U", "a\n", "b"]}
    return [{"id": k, "type": "tropical", "N": 2, "timeout": 40, "prog": [load(0, x, ty="tropical", type="tropical"), {"op": "text_write", "r": 0, "fmt": f, "how": "FILE", "weights": 1, "name": "n", "file": "f"},
             {"op": "text_read", "file": "f", "fmt": f, "how": "bFILE", "type": "tropical", "eps": "@0@"}]} for k, x, f in (("KF1", v, "prolog"), ("KF2", w, "att"))]
