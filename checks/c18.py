import json
from common import *
import xre
ID = "C18"
SPEC = "Lexc"
CAP = 100
LEXNAMES = ["Root", "A", "B", "A_B", "B_C", "C", "Nouns", "Ä", "x1", "N/A", "Root2"]
PLAIN = ["a", "b", "c", "d"]
ODD = ["ä", "€", "+", "$", "#", "^", "_", " ", "<", "!", ";", ":", "%", '"', ">", "0", "-", "e\u0301", "/", "."]
ESC = set(" <!;:%\"0")
MULTI = [["a", "b"], ["b", "c"], ["a", "b", "c"], ["+", "N"], ["+", "N", "P", "l"], ["+", "N", "P"], ["c", "$"], ["a", "$"], ["^", "d"], ["#", "#"], ["<", "a", ">"],
         ["d", "d"], ["+", "1", "0"], ["@", "P", ".", "C", ".", "x", "@"], ["a", "_"], ["$", "a"]]
BAD = ["LEXICON Root\na\n", "LEXICON Root\na b c # ;\nLEXICON A\n", "a # ;\n", "LEXICON Root\na # \n b # ;\n", "LEXICON Root\n< [ a > # ;\n", "LEXICON Root\n< a # ;\n",
       "Multichar_Symbols +N\na # ;\n", "LEXICON Root\na:b:c # ;\n", "LEXICON Root\na # \"gloss ;\n", "LEXICON\n a # ;\n", "LEXICON Root\n",
       "Definitions\nX = a | ;\nLEXICON Root\n< X > # ;\n", "LEXICON Root\n; # ;\n", "", "LEXICON Root\na # ; LEXICON B\n c <d> # ;\n", "LEXICON Root\n< a .o. [ > # ;\nb # ;\n"]


def join(p):
    return p[0] + "".join(h + "".join(ts) for h, ts in p[1]) + p[2]


class G:
    def __init__(self, rng, weighted, cyclic, any_, flags):
        self.r, self.weighted, self.cyclic, self.any = rng, weighted, cyclic, any_
        self.chars = PLAIN[:rng.choice([2, 2, 3])] + rng.sample(ODD, rng.choice([0, 1, 1, 2]))
        self.multi = rng.sample([m for m in MULTI if not (any_ or flags) or m[0] != "@"], rng.choice([0, 0, 1, 2, 2, 3]))
        self.names = rng.sample(LEXNAMES[1:], rng.choice([0, 1, 1, 2, 3, 4]))

    def ch(self, c):
        if c == "":
            return "0"
        if c in ESC:
            return "%" + c
        return "%" + c if self.r.random() < .03 and len(c) == 1 and ord(c) < 128 and c != "@" else c

    def s(self, cs):
        out, k, fl = "", 0, MULTI[13]
        while k < len(cs):      # between @ and @ nothing is escaped
            if cs[k:k + len(fl)] == fl:
                out += "".join(fl)
                k += len(fl)
            else:
                out += self.ch(cs[k])
                k += 1
        return out

    def data(self, top=3):
        r, out = self.r, []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3][:top + 3])):
            q = r.random()
            if self.multi and q < .35:
                m = r.choice(self.multi)
                out += m if r.random() < .8 or m[0] == "@" else m[:-1]
            elif q < .43:
                out.append("" if out[-1:] != ["1"] else "a")    # whether the zero in +10 is one depends on the declared symbols
            else:
                out.append(r.choice(self.chars))
        return out

    def sp(self):
        q = self.r.random()
        return " " if q < .85 else "\t" if q < .93 else "  "

    def gloss(self, w):
        r = self.r
        n = "%g" % (w / 4.0) if r.random() < .7 else "%.2f" % (w / 4.0)
        if w:
            return self.sp() + '"' + r.choice(["weight: %s", "weight:%s", "gloss weight: %s", "weight: %s xyz", "ä weight:   %s"]) % n + '"' + r.choice(["", " "])
        return self.sp() + '"%s"' % r.choice(["gloss", "a ; b", "", "LEXICON Foo", "wait: 3", "weight: 0"]) + r.choice(["", " "]) if r.random() < .1 else r.choice(["", "", " "])

    def entry(self, cont, defs):
        """(record, text)"""
        r = self.r
        w = r.randint(1, 8) if self.weighted and r.random() < .5 else 0
        q = r.random()
        e = {"k": "s", "u": [], "l": [], "x": ["eps"], "cont": cont, "w": w}
        tail = cont + self.gloss(w) + ";"
        if q < .1:
            t = r.choice(["", ":"]) + self.sp()
        elif q < .45:
            e["u"] = self.data()
            t = self.s(e["u"]) + self.sp()
        elif q < .8:
            e["k"] = "p"
            q = r.random()
            e["u"] = [] if q < .12 else self.data()
            e["l"] = [] if q > .88 else self.data()
            z = lambda x: r.choice(["", "0"]) if not x else self.s(x)
            u, l = z(e["u"]), z(e["l"])
            if u == "" and l == "":
                u = "0"
            t = u + r.choice([":", ":", ":", " : ", " :"]) + l + self.sp()
        else:
            e["k"] = "r"
            g = xre.Gen(r, self.weighted, self.any, .1, syms=["a", "b", "c"], defs=defs)
            g.plain = self.weighted
            while True:
                x = g.ex(r.randint(0, 2), r.random() < .5)
                tx = xre.text(r, x)
                if xre.size(x) < 14 and not any(o in str(x) for o in ("before", "after", "more", "less", "'restr'", "'prio'", "'lprio'", "lenient", "€", "<", "'+'", "'@U', '@U'")) and "!" not in tx and "<" not in tx and ">" not in tx:
                    break
            e["x"] = xre.strip(x)
            t = "<" + self.sp() + tx + self.sp() + ">" + self.sp()
        return e, t + tail

    def comment(self):
        return self.r.choice([" ! note", "! LEXICON Foo", " !ä ; # ;"]) if self.r.random() < .06 else ""

    def file(self, first=True):
        r, f, t = self.r, {"multi": [], "defs": [], "lexs": []}, ""
        if r.random() < .2:
            t += "! a comment\n\n"
        if self.multi and first:
            f["multi"] = self.multi
            t += r.choice(["Multichar_Symbols", "Multichar_Symbols", "MULTICHAR_SYMBOLS", "Alphabets"]) + r.choice([" ", "\n"]) + r.choice([" ", "\n", "\t"]).join(self.s(m) for m in self.multi) + self.comment() + "\n"
        defs = []
        if r.random() < .2:
            t += r.choice(["Definitions\n", "Declarations\n", "DEFINITIONS\n"])
            for n in r.sample(["Foo", "Bar"], r.randint(1, 2)):
                g = xre.Gen(r, False, False, .1, syms=["a", "b", "c"], defs=defs)
                g.plain = True
                aut = r.random() < .6
                while True:
                    x = g.ex(r.randint(0, 1), aut)
                    tx = xre.text(r, x)
                    if not any(o in str(x) for o in ("<", "€", "'+'")) and not any(o in tx for o in "!<>"):
                        break
                f["defs"].append({"name": n, "ast": xre.strip(x)})
                t += n + " = " + tx + " ;" + self.comment() + "\n"
                defs.append((n, aut))
        names = ["Root"] + self.names if r.random() < .85 else list(self.names) or ["Root"]
        order = list(names)
        if r.random() < .15:
            r.shuffle(order)
        if r.random() < .15:
            order.append(r.choice(names))
        parts = []
        hd = t
        for n in order:
            es, k, ts = [], names.index(n), []
            h = r.choice(["", "\n"]) + r.choice(["LEXICON", "LEXICON", "LEXICON", "Lexicon"]) + self.sp() + n + self.comment() + r.choice(["\n", "\n", " \n", "\n\n"])
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                cs = ["#", "#"] + (names if self.cyclic else names[k + 1:] * 2) + (["Undef"] if r.random() < .05 else [])
                e, x = self.entry(r.choice(cs), defs)
                es.append(e)
                ts.append(r.choice(["", "", " "]) + x + self.comment() + r.choice(["\n", "\n", "\n", " \n", "\n\n"]))
            parts.append([h, ts])
            f["lexs"].append({"name": n, "entries": es})
        tl = ""
        if r.random() < .15:
            tl = r.choice(["END\n", "\nEND\nfoo # ;\n", "END \n<< ; \n"])
        return f, [hd, parts, tl]


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 2000, 12000)):
        weighted = rng.random() < .4
        ty = "tropical" if weighted else rng.choice(["tropical", "tropical", "sfst", "foma"])
        prog = []
        any_ = rng.random() < .25
        for c in range(rng.choice([1, 1, 2])):
            flags = int(rng.random() < .2)
            prog.append({"op": "lexc_new", "flags": flags, "align": int(rng.random() < .3)})
            for k in range(rng.choice([1, 1, 1, 2])):
                if k:
                    prog.append({"op": "lexc_reset"})
                if rng.random() < .06:
                    prog.append({"op": "lexc_bad", "text": rng.choice(BAD), "how": rng.randint(0, 1)})
                    prog.append({"op": "lexc_compile"})
                    prog.append({"op": "lexc_reset"})
                g = G(rng, weighted, not weighted and rng.random() < .6, any_, flags)
                for i in range(rng.choice([1, 1, 1, 1, 2])):
                    f, t = g.file(i == 0)
                    prog.append({"op": "lexc_parse", "text": join(t), "parts": t, "file": f, "how": rng.randint(0, 1)})
                prog.append({"op": "lexc_compile"})
                if rng.random() < .05:
                    prog.append({"op": "lexc_compile"})
        used = json.dumps([e["file"] for e in prog if "file" in e])
        wide = any('"%s"' % x in used for x in ("any", "not", "has", "once", "atmost", "term", "restr", "before", "after", "lenient"))
        out.append({"id": j, "type": ty, "N": 2 if any_ or wide else 3, "timeout": 40, "prog": prog})
    return out
