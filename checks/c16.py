from common import *
ID = "C16"
SPEC = "Tokens"
CAP = 0
D, A = "\u0308", "\u0301"
COMB = [D, A]
CH = ["a", "b", "c", "ä", "€", "𝄞", "+", " ", D, A, "@", "P", "."]
TYPES = ["tropical", "sfst", "foma", "log"]
BAD = [[0xff], [0xc3], [97, 0xc3, 97], [0xe2, 0x82], [0x80], [97, 0xa4], [0xc0, 0x80], [0xf0, 0x9d, 0x84], [98, 0xe4, 0x98], [0xed, 0xa0, 0x80], [0xf5, 0x80, 0x80, 0x80], [0xfe, 97]]


def string(rng, ch, n=7):
    return [rng.choice(ch) for _ in range(rng.randint(0, n))]


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 6000, 60000)):
        ch = rng.choice([["a", "b"], ["a", "b", "c"], ["a", D, A, "b"], ["ä", "a", "€", "𝄞"], CH])
        prog = [{"op": "tk_new", "tk": 0}]
        if rng.random() < .3:
            prog.append({"op": "tk_new", "tk": 1})
        two = len(prog)
        for k in range(rng.randint(2, 10)):
            tk = rng.randrange(two)
            q = rng.random()
            ty = rng.choice(TYPES)
            base = {"tk": tk, "comb": COMB}
            if q < .3:
                s = [rng.choice(ch) for _ in range(rng.randint(1, 4))]
                prog.append(dict(base, op="tk_multi", s=s if rng.random() < .95 else []))
            elif q < .38:
                prog.append(dict(base, op="tk_skip", s=string(rng, ch, 3)))
            elif q < .55:
                prog.append(dict(base, op=rng.choice(["tk_one", "tk_tok"]), s=string(rng, ch), split=rng.choice([0, 0, 1])))
            elif q < .7:
                prog.append(dict(base, op="tk_pair", s=string(rng, ch), o=string(rng, ch), split=rng.choice([0, 0, 1])))
            elif q < .75:
                prog.append(dict(base, op="tk_space", s=string(rng, ch + [" ", " "])))
            elif q < .8:
                prog.append(dict(base, op="tk_bytes", bytes=rng.choice(BAD), how=rng.choice(["one", "pair", "space", "tok", "mk"]), type=ty, split=rng.choice([0, 1])))
            elif q < .85:
                prog.append(dict(base, op="mk_str", r=k, s=string(rng, ch, 4), type=ty))
            elif q < .9:
                prog.append(dict(base, op="mk_str2", r=k, s=string(rng, ch, 4), o=string(rng, ch, 4), type=ty))
            else:
                sy = ["a", "b", "ab", ""] + rng.choice([[], [], ["@U"], ["@I"]])

                def pr():
                    i, o = rng.choice(sy), rng.choice(sy)
                    return ["@I", "@I"] if "@I" in (i, o) else [i, o]
                z = rng.randrange(5)
                if z == 0:
                    prog.append(dict(base, op="mk_spv", r=k, pairs=[pr() for _ in range(rng.randint(0, 4))], type=ty))
                elif z == 1:
                    prog.append(dict(base, op="mk_set", r=k, pairs=[pr() for _ in range(rng.randint(0, 4))], cyclic=rng.choice([0, 1]), type=ty))
                elif z == 2:
                    prog.append(dict(base, op="mk_sets", r=k, sets=[[pr() for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 3))], type=ty))
                elif z == 3:
                    prog.append(dict(base, op="mk_sym", r=k, i=rng.choice([s for s in sy if s != "@U"]), type=ty))
                else:
                    p = pr()
                    prog.append(dict(base, op="mk_sym2", r=k, i=p[0], o=p[1], type=ty))
        out.append({"id": j, "type": "tropical", "N": 4, "timeout": 40, "prog": prog})
    return out
