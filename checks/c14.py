import gen
from common import *
ID = "C14"
SPEC = "Streams"
CAP = 0
TYPES = ["tropical", "sfst", "foma", "log", "ol", "olw"]


def value(rng, ty):
    kw = dict(nmax=4, arcs=7, special=rng.choice([(), ("@I", "@U"), ("@I",)]), acyclic=rng.random() < .5, alpha=extra_alpha(rng),
              syms=rng.choice([("a", "b"), ("a", "b"), ("a", "ä"), ("ab", "%"), ("a", " "), ("\\n", ":")]))
    if ty in ("log", "olw", "tropical"):
        v = gen.fst(rng, pweight=.6 if ty != "log" or kw["acyclic"] else 0, **kw)
    else:
        v = gen.fst(rng, pweight=0, **kw)
    return gen.accessible(v) if ty == "foma" else v


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 6000, 40000)):
        ty = TYPES[j % 6]
        n = rng.randint(1, 3)
        prog = []
        rty = {}
        for r in range(n):
            t = ty if rng.random() < .85 else rng.choice(TYPES)
            v = value(rng, t)
            base = "tropical" if t in ("ol", "olw") else t
            prog.append(load(r, v, ty=base, type=base))
            if rng.random() < .5:
                prog.append({"op": "set_name", "r": r, "name": rng.choice(["n%d" % r, "", "nämn", "a b", "x" * rng.choice([30, 300])])})
            if rng.random() < .4:
                prog.append({"op": "set_prop", "r": r, "key": rng.choice(["author", "author", "zzz", "k%d" % r, "character-encoding"]), "val": rng.choice(["v", "", "two words", "y" * 200])})
            if base != t:
                prog.append({"op": "tconvert", "r": r, "to": t})
            elif rng.random() < .1 and t == "tropical":
                t = rng.choice(["sfst", "log"])
                prog.append({"op": "tconvert", "r": r, "to": t})
            rty[r] = t
            if rng.random() < .1 and r and rty[r] == rty[r - 1]:
                prog.append({"op": rng.choice(["tcopy", "tassign"]), "r": r, "a": r - 1})
                rty[r] = rty[r - 1]
        files = []
        for k in range(rng.randint(1, 2)):
            f = "f%d" % k
            native = ty == "tropical" and rng.random() < .1
            wt = rty[rng.randrange(n)]
            prog.append({"op": "os_open", "h": k, "file": f, "type": wt, "hfst": 0 if native and wt == "tropical" else 1})
            same = [r for r in rty if rty[r] == wt]
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
                prog.append({"op": "os_put", "h": k, "r": rng.choice(same) if rng.random() < .9 else rng.randrange(n)})
            prog.append({"op": "os_close", "h": k})
            if rng.random() < .1:
                prog.append({"op": "os_put", "h": k, "r": rng.randrange(n)})
            files.append(f)
        q = rng.random()
        if q < .2 and len(files) > 1:
            prog.append({"op": "cat", "file": "g", "from": [rng.choice(files) for _ in range(rng.randint(1, 3))]})
            files.append("g")
        elif q < .35:
            prog.append({"op": "cut", "file": rng.choice(files), "drop": rng.choice([1, 2, 3, 4, 7, 8, 12, 20, 30])})
        elif q < .4:
            prog.append({"op": "spit", "file": "j", "text": rng.choice(["", "hello\n", "\x01\x02\x03", "HFST", "HFST\0", "H", "\n", "0\t1\ta\tb\n1\n", "AT&T", "x" * 100])})
            if rng.random() < .5:
                prog.append({"op": "cat", "file": "g", "from": [files[0], "j"]})
                files = ["g"]
            else:
                files.append("j")
        elif q < .43:
            files.append("nosuch")
        for k in range(rng.randint(1, 2)):
            f = rng.choice(files)
            prog.append({"op": "is_open", "h": k, "file": f, "istr": 1 if not {"sfst", "foma"} & set(rty.values()) and rng.random() < .15 else 0})
            for x in range(rng.randint(1, 6)):
                if rng.random() < .3:
                    prog.append({"op": "is_state", "h": k})
                prog.append({"op": "is_get", "h": k, "r": 10 + x})
            if rng.random() < .5:
                prog.append({"op": "is_close", "h": k})
        if rng.random() < .4:
            prog.append({"op": "props", "r": rng.randrange(n)})
        out.append({"id": j, "type": "tropical", "N": 2, "prog": prog, "timeout": 10})
    return out
