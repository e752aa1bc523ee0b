"""show.py REPLAY: prints a replay file compactly"""
import json, sys
def v(x): return "n=%d t=%s f=%s a=%s" % (x["n"], x["t"], x["f"], [s for s in x["a"] if s not in ("", "@I", "@U")])
for f in sys.argv[1:]:
    j = json.load(open(f)); print(f.split("/")[-1], j["why"], {k: x for k, x in j["case"].items() if k not in ("prog",)})
    for k, e in enumerate(j["observed"]["ev"][:j["why"]["event"]]):
        print("  ", k + 1, {a: (v(b) if isinstance(b, dict) and "t" in b else b) for a, b in e.items() if a != "fst"})
