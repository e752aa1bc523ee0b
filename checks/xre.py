"""Random Xerox regular expressions: abstract syntax trees and their concrete text."""
SY = ["a", "b", "c"]
ODD = ["foo", "ä", "+", "<", "b1", "€"]
SPECIALS = set("+<>*|&-~$\\/^?0:;,()[]{}\"%!#_.=` @")

# levels of the grammar: an operand printed at level k may be of level >= k
LEVEL = {"comp": 2, "cross": 2, "lenient": 2, "before": 3, "after": 3, "restr": 4, "or": 5, "and": 5, "minus": 5, "prio": 5, "lprio": 5,
         "cat": 6, "ignore": 7, "not": 8, "has": 8, "once": 8, "atmost": 8, "star": 9, "plus": 9, "rev": 9, "inv": 9, "up": 9, "low": 9,
         "pow": 9, "more": 9, "less": 9, "range": 9, "term": 10}
INFIX = {"comp": ".o.", "cross": ".x.", "lenient": ".O.", "before": "<", "after": ">", "or": "|", "and": "&", "minus": "-", "prio": ".P.",
         "lprio": ".p.", "cat": "", "ignore": "/"}
PREFIX = {"not": "~", "has": "$", "once": "$.", "atmost": "$?", "term": "\\"}
POST = {"star": "*", "plus": "+", "rev": ".r", "inv": ".i", "up": ".u", "low": ".l"}


class Gen:
    def __init__(self, rng, weighted=False, any_=True, odd=.1, zero=True, defs=(), fns=(), syms=SY, nargs=0):
        self.plain = False
        self.zero = zero
        self.rng, self.weighted, self.any, self.odd, self.syms, self.nargs = rng, weighted, any_, odd, list(syms), nargs
        self.defs, self.fns = list(defs), list(fns)       # (name, is_automaton), (name, arity)
        if rng.random() < odd:
            self.syms = self.syms[:2] + [rng.choice(ODD)]

    def sym(self):
        return self.rng.choice(self.syms)

    def leaf(self, aut):
        r = self.rng
        q = r.random()
        if self.nargs and q < .4:
            return ["arg", r.randint(1, self.nargs)]
        ds = [d for d in self.defs if d[1] or not aut]
        if ds and q < .3:
            return ["def", r.choice(ds)[0]]
        q = r.random()
        if q < .1:
            x = ["eps"]
        elif q < .22 and self.any:
            x = ["any"]
        elif q < .3:
            x = ["word", [r.choice(SY) for _ in range(r.randint(1, 3))]]
        elif q < .6 and not aut:
            s = self.syms + [""] + (["@U"] if self.any and r.random() < .4 else [])
            x = ["pair", r.choice(s), r.choice(s)]
        else:
            x = ["sym", self.sym()]
        if self.weighted and r.random() < .4:
            x = ["weight", x, r.randint(1, 6)]
        return x

    def ex(self, d, aut, nz=False):
        """d: depth; aut: must be an automaton; nz: should not accept the empty string"""
        r = self.rng
        if d <= 0 or r.random() < .12:
            x = self.leaf(aut)
            return ["sym", self.sym()] if nz and x[0] in ("eps",) else x
        k = lambda a, n=False: self.ex(d - 1 - (r.random() < .3), a, n)
        ops = ["or", "cat", "or", "cat", "opt", "pow", "less", "range"]
        if not self.weighted:
            ops += ["star", "plus", "more"]
        if aut:
            ops += ["rev"]
            if not self.weighted and not self.plain:
                ops += ["and", "minus", "not", "has", "once", "atmost", "term", "ignore", "before", "after", "restr", "and", "minus"]
            ops += ["up", "low"]
        else:
            ops += ["cross", "colon", "comp", "comp", "inv", "inv", "rev", "lenient", "prio", "lprio", "cross"]
        if self.weighted:
            ops += ["weight"]
        if self.fns and r.random() < .25:
            f, n = r.choice(self.fns)
            return ["call", f, [k(True) for _ in range(n)]]
        o = r.choice(ops)
        if nz and o in ("opt", "star", "not", "less", "before", "after", "restr", "atmost", "range"):
            o = "cat"
        if o in ("or", "cat"):
            return [o, k(aut, nz), k(aut)] if o == "cat" else [o, k(aut, nz), k(aut, nz)]
        if o in ("opt", "star", "plus", "rev"):
            return [o, k(aut, nz)]
        if o == "inv":
            return [o, k(False)]
        if o in ("up", "low"):
            return [o, k(False)]
        if o == "pow":
            return [o, k(aut, nz), r.randint(1 if nz or not self.zero else 0, 3)]
        if o == "more":
            return [o, k(aut, nz), r.randint(0, 2)]
        if o == "less":
            return [o, k(aut), r.randint(1 if self.zero else 2, 3)]
        if o == "range":
            n = r.randint(0, 2)
            return [o, k(aut), n, max(n + r.randint(0, 2), 0 if self.zero else 1)]
        if o == "weight":
            return [o, k(aut), r.randint(1, 6)]
        if o == "ignore":      # nested, its determinisation is exponential
            return [o, self.ex(1, True, nz), self.leaf(True)] if not self.nargs else [o, self.leaf(True), ["sym", self.sym()]]
        if o in ("and", "minus"):
            return [o, k(True, nz), k(True)]
        if o in ("before", "after"):
            return [o, k(True, True), k(True, True)]
        if o == "restr":
            return [o, k(True, True), [[k(True), k(True)] for _ in range(r.choice([1, 1, 2]))]]
        if o in ("not", "has"):
            return [o, k(True)]
        if o == "term":
            return [o, self.ex(0, True)]
        if o in ("once", "atmost"):
            return [o, k(True, True)]
        if o == "cross":
            return [o, k(True), k(True)]
        if o == "colon":
            a = self.colonarg(d)
            b = self.colonarg(d)
            return [o, a, b]
        if o in ("comp", "lenient"):
            # C02 KF1: pairs of two unknown symbols that arise in a composition lose the identical pairs;
            # one operand is an automaton or has no "any symbol" at all
            if r.random() < .4:
                calm = k(True)
            else:
                g = Gen(r, self.weighted, False, 0, zero=self.zero, syms=self.syms)
                g.plain = True
                calm = g.ex(d - 1, False)
            return [o, calm, k(False)] if r.random() < .5 else [o, k(False), calm]
        return [o, k(False), k(False)]

    def colonarg(self, d):
        q = self.rng.random()
        if q < .5:
            return ["br", self.ex(d - 1, True)]
        if q < .7:
            return ["word", [self.rng.choice(SY) for _ in range(self.rng.randint(1, 3))]]
        return self.rng.choice([["sym", self.sym()], ["eps"]] + ([["any"]] if self.any else []) + [["def", n] for n, a in self.defs if a])


def nullable(x, defs=None):
    """upper bound: may the automaton accept the empty string?"""
    return True


class Printer:
    def __init__(self, rng):
        self.rng = rng

    def s(self, sym, force=False):
        r = self.rng
        if sym == "":
            return r.choice(["0", "0", '""', "[]"]) if not force else "0"
        if sym == "@U":
            return "?"
        if any(c in SPECIALS for c in sym):
            return '"%s"' % sym if r.random() < .5 and '"' not in sym and "%" not in sym else "".join("%" + c if c in SPECIALS else c for c in sym)
        q = r.random()
        if q < .06:
            return '"%s"' % sym
        if q < .1 and len(sym) == 1 and sym.isalpha() and ord(sym) < 128:
            return "%" + sym
        return sym

    def sp(self):
        r = self.rng
        q = r.random()
        return " " if q < .93 else "  " if q < .96 else "\n" if q < .98 else " ! note | [ *\n"

    def w(self, n):
        return "::" + self.rng.choice(["%g" % (n / 4.0), "%.2f" % (n / 4.0)])

    def at(self, x, lev):
        t, l = self.p(x)
        if l < lev or self.rng.random() < .05:
            return "[" + self.sp() + t + self.sp() + "]"
        return t

    def p(self, x):
        """text and level"""
        r, o = self.rng, x[0]
        if o == "br":
            return "[" + self.sp() + self.p(x[1])[0] + self.sp() + "]", 11
        if o == "sym":
            return self.s(x[1]), 12
        if o == "eps":
            return self.s(""), 12
        if o == "any":
            return "?", 12
        if o == "pair":
            return self.s(x[1], True) + ":" + self.s(x[2], True), 12
        if o == "word":
            return "{" + "".join(x[1]) + "}", 12
        if o == "def":
            return x[1], 12
        if o == "arg":
            return '"@%s%d@"' % (self.fname, x[1]), 12
        if o == "call":
            return x[1] + ",".join(self.sp() + self.at(a, 5) for a in x[2]) + self.sp() + ")", 12
        if o == "colon":
            return self.p(x[1])[0] + ":" + self.p(x[2])[0], 11
        if o == "weight":
            # only a bare label or a bracketed expression takes a weight
            b = x[1]
            if b[0] in ("sym", "pair", "word", "any") and r.random() < .6:
                return self.p(b)[0] + self.w(x[2]), 12
            return "[" + self.sp() + self.p(b)[0] + self.sp() + "]" + self.w(x[2]), 11
        if o == "opt":
            return "(" + self.sp() + self.p(x[1])[0] + self.sp() + ")", 11
        lev = LEVEL[o]
        if o in INFIX:
            return self.at(x[1], lev) + self.sp() + INFIX[o] + self.sp() + self.at(x[2], lev + 1), lev
        if o in PREFIX:
            t = self.at(x[1], lev)
            return PREFIX[o] + (" " if t[0] in "?.|&-<>=\\/$:" else r.choice(["", " "])) + t, lev
        if o in POST:
            t = POST[o]
            return self.at(x[1], lev) + r.choice(["", " "] if t[0] in "*+" else [" ", ""]) + t, lev
        if o == "pow":
            return self.at(x[1], lev) + "^%d" % x[2], lev
        if o == "more":
            return self.at(x[1], lev) + "^>%d" % x[2], lev
        if o == "less":
            return self.at(x[1], lev) + "^<%d" % x[2], lev
        if o == "range":
            return self.at(x[1], lev) + r.choice(["^{%d,%d}", "^%d,%d"]) % (x[2], x[3]), lev
        if o == "restr":
            cs = []
            for l, rr in x[2]:
                # contexts: an empty side may be left out
                lt = "" if l == ["eps"] and r.random() < .7 else self.at(l, 5)
                rt = "" if rr == ["eps"] and r.random() < .7 else self.at(rr, 5)
                cs.append(lt + self.sp() + "_" + self.sp() + rt)
            return self.at(x[1], 5) + self.sp() + "=>" + self.sp() + (self.sp() + "," + self.sp()).join(cs), lev
        raise ValueError(o)


def text(rng, x, fname=None):
    p = Printer(rng)
    p.fname = fname
    return p.p(x)[0]


def strip(x):
    """the abstract tree: brackets that only the text needs removed"""
    if isinstance(x, list):
        if x and x[0] == "br":
            return strip(x[1])
        return [strip(y) for y in x]
    return x


def size(x):
    return 1 + sum(size(y) for y in x if isinstance(y, list)) if isinstance(x, list) else 0
