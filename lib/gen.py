"""Random generators of transducers and programs (seeded)."""
import random

PLAIN = dict(syms=["a", "b"], special=[], weights=True)


def fst(rng, nmax=4, arcs=6, syms=("a", "b"), special=(), peps=0.2, pweight=0.4, acceptor=False, acyclic=False,
        alpha=(), wmax=6, pfinal=0.4):
    """a random transducer value; states 0..n-1"""
    n = rng.randint(1, nmax)
    t, f = [], []
    weighted = rng.random() < pweight

    def w():
        return rng.randint(0, wmax) if weighted and rng.random() < 0.6 else 0

    def sym():
        if rng.random() < peps:
            return ""
        return rng.choice(list(syms))
    k = rng.randint(0, arcs)
    for j in range(k):
        if acyclic:
            if n < 2:
                break
            s = rng.randrange(0, n - 1)
            d = rng.randrange(s + 1, n)
        elif j < n - 1 and rng.random() < 0.7:
            s, d = rng.randrange(0, j + 1), j + 1      # keep it connected
        else:
            s, d = rng.randrange(n), rng.randrange(n)
        if special and rng.random() < 0.35:
            kind = rng.choice(special)
            if kind == "@I":
                i = o = "@I"
            elif kind in ("@Ui", "@Uo"):      # unknown on one side only
                i, o = ("@U", rng.choice(list(syms) + [""])) if kind == "@Ui" else (rng.choice(list(syms) + [""]), "@U")
                if acceptor:
                    i = o = "@I"
            else:
                q = rng.random()
                i, o = ("@U", "@U") if q < 0.3 and not acceptor else ("@U", rng.choice(list(syms) + [""])) if q < 0.65 \
                    else (rng.choice(list(syms) + [""]), "@U")
                if acceptor:
                    i = o = "@I"
        elif acceptor or rng.random() < 0.45:
            i = o = sym()
        else:
            i, o = sym(), sym()
        if s == d and i == "" and o == "" and rng.random() < 0.8:
            continue
        e = [s, d, i, o, w()]
        if not any(x[:4] == e[:4] for x in t):
            t.append(e)
    for s in range(n):
        if rng.random() < pfinal or (s == n - 1 and rng.random() < 0.6):
            f.append([s, w()])
    a = set(alpha)
    for x in t:
        a.add(x[2])
        a.add(x[3])
    a |= {"", "@I", "@U"}
    return {"n": n, "t": t, "f": f, "a": sorted(a)}


def words(rng, k=4, maxlen=3, syms=("a", "b"), pw=0.4, wmax=6):
    """a finite list of weighted pairs as a trie-free union of paths (acyclic)"""
    t, f, n = [], [], 1
    a = {"", "@I", "@U"}
    for _ in range(rng.randint(1, k)):
        s = 0
        for _ in range(rng.randint(0, maxlen)):
            x = rng.choice(list(syms))
            y = x if rng.random() < 0.6 else rng.choice(list(syms) + [""])
            t.append([s, n, x, y, rng.randint(0, wmax) if rng.random() < pw else 0])
            a |= {x, y}
            s, n = n, n + 1
        if not any(q == s for q, _ in f):
            f.append([s, rng.randint(0, wmax) if rng.random() < pw else 0])
    return {"n": n, "t": t, "f": f, "a": sorted(a)}


def accessible(v):
    """v without the states that cannot be reached (states renumbered in order)"""
    seen, todo = {0}, [0]
    while todo:
        q = todo.pop()
        for x in v["t"]:
            if x[0] == q and x[1] not in seen:
                seen.add(x[1])
                todo.append(x[1])
    m = {q: k for k, q in enumerate(sorted(seen))}
    t = [[m[x[0]], m[x[1]]] + x[2:] for x in v["t"] if x[0] in m]
    f = [[m[q], w] for q, w in v["f"] if q in m]
    return {"n": len(m), "t": t, "f": f, "a": v["a"]}


def is_cyclic(v):
    for s in range(v["n"]):
        seen, todo = set(), [x[1] for x in v["t"] if x[0] == s]
        while todo:
            q = todo.pop()
            if q == s:
                return True
            if q not in seen:
                seen.add(q)
                todo += [x[1] for x in v["t"] if x[0] == q]
    return False


def for_type(rng, ty, wcyclic=True, **kw):
    """a random value fit for back end ty: weights only where they are kept; libfoma (not part of HFST)
    crashes on machines with unreachable states, so it gets accessible ones"""
    pw = kw.pop("pweight", 0.6)
    if ty not in ("tropical",):
        pw = 0.0
    elif not wcyclic and rng.random() < pw:
        kw["acyclic"] = True
        pw = 1.0
    elif not wcyclic:
        pw = 0.0
    v = fst(rng, pweight=pw, **kw)
    return accessible(v) if ty == "foma" else v


# ---------------------------------------------------------------- flag diacritics
def flag_table(syms):
    """<<symbol, operator, feature, value>> of the symbols that are flag diacritics"""
    import re
    out = []
    for x in sorted(set(syms)):
        m = re.match(r"^@([PNDRCU])\.([^.@]+)(?:\.([^@]*))?@$", x)
        if m and (m.group(3) is not None or m.group(1) in "RDC"):
            out.append([x, m.group(1), m.group(2), m.group(3) or ""])
    return out


def flagset(rng, feats=("F", "G"), vals=("x", "y"), k=4, ops="PNDRCU"):
    out = set()
    while len(out) < k:
        op = rng.choice(ops)
        f, v = rng.choice(feats), rng.choice(vals)
        out.add("@%s.%s@" % (op, f) if op == "C" or (op in "RD" and rng.random() < .4) else "@%s.%s.%s@" % (op, f, v))
    return sorted(out)


def with_flags(rng, v, flags, p=0.5):
    """some arcs of v become flag arcs, some flag arcs are added"""
    t = []
    for x in v["t"]:
        if rng.random() < p * 0.7:
            f = rng.choice(flags)
            x = [x[0], x[1], f, f, x[4]]
        if not any(y[:4] == x[:4] for y in t):
            t.append(x)
    a = set(v["a"])
    for x in t:
        a |= {x[2], x[3]}
    return dict(v, t=t, a=sorted(a))


def syms_of(*vs):
    s = set()
    for v in vs:
        s |= set(v["a"])
        for x in v["t"]:
            s |= {x[2], x[3]}
    return s


def trim(v):
    """only states on accepting paths (state 0 stays)"""
    v = accessible(v)
    live = {q for q, _ in v["f"]}
    ch = True
    while ch:
        ch = False
        for x in v["t"]:
            if x[1] in live and x[0] not in live:
                live.add(x[0])
                ch = True
    live.add(0)
    m = {q: k for k, q in enumerate(sorted(live))}
    return {"n": len(m), "t": [[m[x[0]], m[x[1]]] + x[2:] for x in v["t"] if x[0] in m and x[1] in m],
            "f": [[m[q], w] for q, w in v["f"] if q in m], "a": v["a"]}
