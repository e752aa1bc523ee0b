from common import *
import xre
ID = "C21"
SPEC = "Xfst"
CAP = 0
CUT = 60        # networks larger than this end a history
NAMES = ["Foo", "Bar", "N1", "Än"]
FORMS = {"union": ["union net", "union"], "concatenate": ["concatenate net", "concatenate"], "compose": ["compose net", "compose"],
         "intersect": ["intersect net", "intersect", "conjunct"], "shuffle": ["shuffle net", "shuffle"], "minus": ["minus net", "minus", "subtract"],
         "ignore": ["ignore net", "ignore"], "crossproduct": ["crossproduct net", "crossproduct"],
         "determinize": ["determinize net", "determinise"], "minimize": ["minimize net", "minimize"], "epsilon-remove": ["epsilon-remove net"],
         "prune": ["prune net", "prune"], "complete": ["complete net"], "invert": ["invert net", "invert"], "lower-side": ["lower-side net", "lower-side"],
         "upper-side": ["upper-side net", "upper-side"], "zero-plus": ["zero-plus net", "zero-plus"], "one-plus": ["one-plus net", "one-plus"],
         "reverse": ["reverse net", "reverse"], "negate": ["negate net", "negate"],
         "clear": ["clear stack", "clear"], "pop": ["pop stack", "pop"], "turn": ["turn stack", "turn"], "rotate": ["rotate stack", "rotate"], "push": ["push"],
         "sigma": ["sigma net"], "label": ["label net"], "test null": ["test null", "tnu"], "test non-null": ["test non-null"],
         "test upper-universal": ["test upper-universal"], "test lower-universal": ["test lower-universal"], "test upper-bounded": ["test upper-bounded"],
         "test lower-bounded": ["test lower-bounded"], "test identity": ["test identity"], "test equivalent": ["test equivalent"],
         "test overlap": ["test overlap"], "test sublanguage": ["test sublanguage"], "print upper-words": ["print upper-words", "upper-words"],
         "print lower-words": ["print lower-words", "lower-words"]}
BAD = ["regex a | ;\n", "regex [ a ;\n", "read regex ~ ;\n", "frobnicate\n", "define Q a | ;\n", "load stack nofile\n", "regex Hn(a) ;\n"]


class S:
    """the generator's idea of the stack: (automaton, mentions any symbol) of each network"""
    def __init__(self, rng, ty):
        self.r, self.ty, self.stk, self.defs, self.files, self.stop, self.fns = rng, ty, [], {}, {}, False, []

    def regex(self, aut):
        r = self.r
        g = xre.Gen(r, False, zero=self.ty != "foma", any_=aut and r.random() < .3, defs=[(n, d[0]) for n, d in self.defs.items() if d[0] or not d[1]], fns=self.fns)
        while True:
            x = g.ex(r.choice([0, 1, 1, 2, 2]), aut)
            if xre.size(x) < 14:
                break
        s = str(x)
        any_ = any("'%s'" % o in s for o in ("any", "not", "has", "term", "once", "atmost", "restr", "before", "after", "lenient", "@U")) \
            or any(("'def', '%s'" % n) in s and d[1] for n, d in self.defs.items())
        return x, any_

    def cmd(self):
        r, k = self.r, self.stk
        q = r.random()
        n = len(k)
        def go(c, **kw):
            line = kw.pop("line", None)
            if line is None:
                line = r.choice(FORMS[c])
            sep = r.choice(["\n", "\n", " \n", "\n\n"])
            return dict({"op": "xf", "cmd": c, "line": ("  " if r.random() < .05 else "") + line + (sep if not line.endswith("\n") else "")}, **kw)
        if q < .25 or n == 0 and q < .7:
            aut = r.random() < .6
            x, any_ = self.regex(aut)
            k.append((aut, any_))
            return go("regex", ast=xre.strip(x), line=r.choice(["regex ", "read regex ", "regex\n"]) + xre.text(r, x) + r.choice([";", " ;"]) + "\n")
        if q < .31:
            aut = r.random() < .6
            x, any_ = self.regex(aut)
            nm = r.choice(NAMES)
            self.defs[nm] = (aut, any_)
            return go("define", name=nm, ast=xre.strip(x), line="define %s %s ;\n" % (nm, xre.text(r, x)))
        if q < .32:
            m = r.randint(1, 2)
            nm = r.choice(["Fn(", "Gee("])
            x = xre.Gen(r, False, zero=self.ty != "foma", any_=False, nargs=m).ex(r.choice([1, 2]), True)
            self.fns = [f for f in self.fns if f[0] != nm] + [(nm, m)]
            ps = r.sample(["Xa", "Yb", "Zc"], m)
            t = xre.text(r, x, nm)
            for i in range(m):
                t = t.replace('"@%s%d@"' % (nm, i + 1), ps[i])
            return go("define fun", name=nm, ast=xre.strip(x), line="define %s%s) %s ;\n" % (nm, r.choice([",", ", "]).join(ps), t))
        if q < .34 and n:
            nm = r.choice(NAMES)
            self.defs[nm] = k.pop()
            return go("define stack", name=nm, line="define " + nm + r.choice(["", ";"]) + "\n")
        if q < .36:
            ns = r.sample(NAMES, r.choice([1, 1, 2]))
            for x in ns:
                self.defs.pop(x, None)
            return go("undefine", names=ns, line="undefine " + " ".join(ns) + "\n")
        if q < .42:
            nm = r.choice(NAMES)
            if nm in self.defs:
                k.append(self.defs[nm])
            return go("push defined", name=nm, defs=[nm] if nm in self.defs else [], line=r.choice(["push ", "push defined "]) + nm + "\n")
        if q < .43:
            ds = sorted(self.defs)
            if len(ds) <= 3:
                m = (all(self.defs[d][0] for d in ds), any(self.defs[d][1] for d in ds))
                k += [m] * len(ds)
                return go("push", defs=ds)
        if q < .50:
            c = r.choice(["turn", "turn", "rotate", "pop", "pop", "clear"])
            if c in ("turn", "rotate"):
                k.reverse()
            elif c == "pop":
                k[-1:] = []
            else:
                del k[:]
            return go(c)
        if q < .63:
            c = r.choice(["union", "concatenate", "compose", "intersect", "shuffle"])
            if n < 2:
                return go(c)
            auts, anys = all(x[0] for x in k), any(x[1] for x in k)
            if (c in ("intersect", "shuffle") and not auts) or (c == "compose" and anys and not auts) or n > 4 or (c == "shuffle" and (n > 2 or anys)):
                c = r.choice(["union", "concatenate"])
            k[:] = [(auts, anys)]
            return go(c)
        if q < .69:
            c = r.choice(["minus", "ignore", "crossproduct"])
            if n >= 2 and (not (k[-1][0] and k[-2][0])):
                c, self.stop = "crossproduct", True      # whether it can be done depends on the networks: nothing after it
            elif n >= 2:
                k[-2:] = [(c != "crossproduct", k[-1][1] or k[-2][1] or c == "minus")]
            return go(c)
        if q < .80:
            c = r.choice(["determinize", "minimize", "epsilon-remove", "prune", "complete", "invert", "lower-side", "upper-side", "zero-plus", "one-plus", "reverse", "negate"])
            if n:
                a, y = k[-1]
                if c in ("lower-side", "upper-side"):
                    a = True
                elif c == "negate":
                    if not a:
                        c = "reverse"
                    else:
                        y = True
                elif c == "complete" and not a:
                    c = "invert"
                k[-1] = (a, y)
            return go(c)
        if q < .83 and n:
            c = r.choice(["sigma", "label"])
            if c == "sigma":
                k.append((True, False))
            return go(c)
        if q < .85 and n:
            fr = r.choice(["a", "b", "c"])
            to = r.sample([x for x in ["a", "b", "c", "x", "long"] if x != fr], r.choice([1, 1, 2]))     # (see KF1)
            if n and k[-1][1]:
                return self.test(go)
            return go("subst symbol", **{"target": fr, "to": to, "line": "substitute symbol %s for %s\n" % (" ".join(to), fr)})
        if q < .86:
            f = r.choice(["w1", "w2"])
            ws = [[r.choice(["a", "b", "c", "d"]) for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(r.randint(1, 4))]
            c = r.choice(["read text", "read spaced"])
            self.pre.append({"op": "xf_file", "name": f, "text": "".join((" " if c == "read spaced" else "").join(w) + "\n" for w in ws)})
            k.append((True, False))
            return go(c, words=ws, line=("read text " if c == "read text" else "read spaced-text ") + f + "\n")
        if q < .93:
            return self.test(go)
        if q < .96 and n:
            w = [r.choice(["a", "b", "c", "a", "b", "x"]) for _ in range(r.choice([1, 1, 2, 2, 3]))]
            c = r.choice(["apply down", "apply up"])
            return go(c, word=w, line=r.choice([c, c.split()[1]]) + " " + "".join(w) + "\n")
        if q < .975 and n:
            f = r.choice(["f1", "f2"])
            c = r.choice(["save stack", "write att"])
            self.files[f] = (c, list(k))
            return go(c, file=f, line="save stack %s\n" % f if c == "save stack" else "write att > %s\n" % f)
        if self.files and q < .99:
            f = r.choice(sorted(self.files))
            c, v = self.files[f]
            if c == "save stack":
                k += v
                return go("load stack", file=f, line=r.choice(["load ", "load stack "]) + f + "\n")
            if not v[-1][1]:
                k.append(v[-1])
                return go("read att", file=f, line="read att " + f + "\n")
        return {"op": "xf_bad", "line": r.choice(BAD)}

    def test(self, go):
        r, k = self.r, self.stk
        c = r.choice(["test null", "test non-null", "test upper-universal", "test lower-universal", "test upper-bounded", "test lower-bounded", "test identity",
                      "test equivalent", "test equivalent", "test overlap", "test sublanguage", "print upper-words", "print lower-words"])
        if c in ("test equivalent", "test overlap", "test sublanguage") and len(k) >= 2 and not (all(x[0] for x in k) and len(k) <= 4):
            c = r.choice(["print upper-words", "print lower-words", "test upper-bounded"])
        return go(c, **({"acyclic": 1} if c.startswith("print") else {}))


def cases(rng, tier):
    out = []
    for j in range(n_of(tier, 1200, 12000)):
        ty = rng.choice(["tropical", "tropical", "sfst", "foma"])
        prog = [{"op": "xf_new"}]
        s = S(rng, ty)
        for i in range(rng.randint(3, 12)):
            s.pre = []
            e = s.cmd()
            prog += s.pre + [e]
            if s.stop:
                break
        if rng.random() < .2:
            prog += [{"op": "xf", "cmd": "set", "on": 1, "line": "set quit-on-fail ON\n"}, {"op": "xf_bad", "line": rng.choice(BAD)}]
        out.append({"id": j, "type": ty, "N": 2, "timeout": 40, "prog": prog})
    return out


def post(obs, cs):
    for o in obs:
        keep = []
        for e in o["ev"]:
            if any(d["n"] + 2 * len(d["t"]) > CUT for d in e.get("stk", [])):
                break
            keep.append(e)
        o["ev"] = keep
    return obs


def known():
    # substitute symbol with a list that contains the symbol; test identity only compares the two sides
    return [{"id": "KF1", "type": "tropical", "N": 2, "timeout": 40, "prog": [{"op": "xf_new"}, {"op": "xf", "cmd": "regex", "ast": ["sym", "b"], "line": "regex b;\n"},
                {"op": "xf", "cmd": "subst symbol", "target": "b", "to": ["x", "b"], "line": "substitute symbol x b for b\n"}]},
           {"id": "KF2", "type": "tropical", "N": 2, "timeout": 40, "prog": [{"op": "xf_new"},
                {"op": "xf", "cmd": "regex", "ast": ["or", ["pair", "a", "b"], ["pair", "b", "a"]], "line": "regex a:b | b:a;\n"},
                {"op": "xf", "cmd": "test identity", "strict": 1, "line": "test identity\n"}]}]
