"""shrink.py FILE: reduce a replay file to a minimal failing program (development aid, not used by the checks)."""
import copy, json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
import runner


def variants(c):
    for k in range(len(c["prog"])):
        e = c["prog"][k]
        d = copy.deepcopy(c)
        del d["prog"][k]
        if not e["op"].endswith("_new"):
            yield d
        if "parts" in e:
            for i, (h, ts) in enumerate(e["parts"][1]):
                for jj in [None] + list(range(len(ts))):
                    d = copy.deepcopy(c)
                    x = d["prog"][k]
                    if jj is None or len(ts) == 1:
                        if len(e["parts"][1]) == 1:
                            continue
                        del x["parts"][1][i], x["file"]["lexs"][i]
                    else:
                        del x["parts"][1][i][1][jj], x["file"]["lexs"][i]["entries"][jj]
                    x["text"] = x["parts"][0] + "".join(h + "".join(t) for h, t in x["parts"][1]) + x["parts"][2]
                    yield d
        if "fst" in e:
            for key in ("t", "f"):
                for i in range(len(e["fst"][key])):
                    d = copy.deepcopy(c)
                    del d["prog"][k]["fst"][key][i]
                    yield d
            for a in e["fst"].get("a", []):
                if a and a[0] != "@" and not any(a in x[2:4] for x in e["fst"]["t"]):
                    d = copy.deepcopy(c)
                    d["prog"][k]["fst"]["a"].remove(a)
                    yield d
            for i in range(len(e["fst"]["t"])):
                if e["fst"]["t"][i][4]:
                    d = copy.deepcopy(c)
                    d["prog"][k]["fst"]["t"][i][4] = 0
                    yield d
            n = e["fst"]["n"]
            if n > 1 and not any(n - 1 in x[:2] for x in e["fst"]["t"]) and not any(x[0] == n - 1 for x in e["fst"]["f"]):
                d = copy.deepcopy(c)
                d["prog"][k]["fst"]["n"] -= 1
                yield d


def test(mod, cs, w):
    for k, c in enumerate(cs):
        c["id"] = k
    obs = runner.vh(cs, w, "s")
    runner.crashes_as_events(obs)
    runner.trim(obs, getattr(mod, "CAP", 60))
    return runner.validate(mod.SPEC, [o for o in obs if o["ev"]], w, runner.Tally(), "s", getattr(mod, "CFG", None)), obs


def main(f):
    rp = json.load(open(f))
    mod = importlib.import_module(rp["property"].lower())
    w = "/tmp/x/w"
    os.makedirs(w, exist_ok=True)
    c = rp["case"]
    op, why = rp["why"]["op"], rp["why"]["reason"]
    obs = None
    while True:
        vs = list(variants(c))
        rej, ob = test(mod, vs, w)
        hit = [k for k, r in rej.items() if r[1] == op and r[2] == why]
        if not hit:
            break
        k = min(int(x) for x in hit)
        c, obs = vs[k], ob[k]
    print(c["type"], op, why)
    for e in (obs or rp["observed"])["ev"]:
        print("  ", json.dumps(e)[:9000])
    if op == "crash":
        print(json.dumps(c["prog"]))


main(sys.argv[1])
