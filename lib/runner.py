"""Runs one property's check: build -> generate -> execute on the real code -> validate the trace with TLC.

A check module defines
  ID, TITLE          property id and title
  SPEC               trace specification (module name in spec/)
  TOOLS              tools to build
  cases(rng, tier)   list of cases (programs for the harness)
and optionally
  execute(cases)     runs the cases on the real code itself (default: harness/vh)
  models(tier)       list of (module, cfg, env) abstract models to model-check
  known()            list of cases that exhibit known findings (id starts with "KF")
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B

SPECDIR = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 8


class Broken(Exception):
    pass


def log(*a):
    print("#", *a, flush=True)


# ---------------------------------------------------------------- harness
def vh(cases, work, tag="o", binary="vh"):
    ci = os.path.join(work, tag + ".cases")
    co = os.path.join(work, tag + ".out")
    with open(ci, "w") as h:
        for c in cases:
            h.write(json.dumps(c) + "\n")
    r = subprocess.run([os.path.join(B.BIN, binary), ci, co, str(CPUS)], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, cwd=work)
    if r.returncode != 0:
        raise Broken("harness failed: " + r.stdout.decode(errors="replace")[-500:])
    out = {}
    with open(co) as h:
        for l in h:
            j = json.loads(l)
            out[j["id"]] = j
    if len(out) != len(cases):
        raise Broken("harness returned %d of %d cases" % (len(out), len(cases)))
    return [out[c["id"]] for c in cases]


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=None, extra=(), timeout=800, heap="6g"):
    meta = tempfile.mkdtemp(prefix="tlc.", dir=WORK)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-Dtlc2.TLC.stopAfter=100000", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers or CPUS), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPECDIR, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 99, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


class Tally:
    def __init__(self):
        self.states = self.trans = 0
        self.traces = 0
        self.log = []


REJ = re.compile(r'^"REJECT\|"?\\?"?([^|"\\]*)\\?"?\|(\d+)\|([^|]*)\|(.*)"$', re.M)
DON = re.compile(r'^"DONE\|\\?"?([^|"\\]*)\\?"?"$', re.M)


def validate(spec, obs, work, tally, tag="t", cfg=None, depth=0, env=None):
    """returns {id: (event, op, reason)} for the rejected observations"""
    if not obs:
        return {}
    if depth == 0 and len(obs) > 8000:
        rej = {}
        for k in range(0, len(obs), 6000):
            rej.update(validate(spec, obs[k:k + 6000], work, tally, "%s%d" % (tag, k), cfg, 0, env))
        return rej
    f = os.path.join(work, "%s.trace" % tag)
    with open(f, "w") as h:
        for o in obs:
            h.write(json.dumps(o) + "\n")
    e = {"TRACE": f}
    e.update(env or {})
    rc, out = tlc(spec, cfg or spec + ".cfg", e)
    with open(os.path.join(work, "%s.tlc" % tag), "w") as h:
        h.write(out)
    rej = {m.group(1): (int(m.group(2)), m.group(3), m.group(4)) for m in REJ.finditer(out)}
    done = set(m.group(1) for m in DON.finditer(out))
    s, t = counts(out)
    ids = set(str(o["id"]) for o in obs)
    if rc == 0 and done | set(rej) == ids:
        tally.states += s
        tally.trans += max(0, t - len(obs))
        tally.traces += len(obs)
        return rej
    if depth == 0 and re.search(r"Parsing or semantic|Could not parse|ConfigFile|TLC threw|was not found|Unknown operator", out) and not rej and not done:
        raise Broken("specification error: " + out[-1500:])
    tally.isolate = getattr(tally, "isolate", 0) + 1
    if tally.isolate > 40:
        raise Broken("TLC keeps failing: " + out[-1500:])
    if depth == 0:
        log("TLC did not finish (rc %d, %d of %d cases); isolating" % (rc, len(done | set(rej)), len(ids)))
        for l in out.splitlines():
            if "rror" in l or "ttempted" in l:
                log("  " + l[:300])
    rest = [o for o in obs if str(o["id"]) not in done and str(o["id"]) not in rej]
    if not rest:
        raise Broken("TLC rc %d but all cases decided: %s" % (rc, out[-800:]))
    if len(rest) == 1 and depth > 0:
        m = re.search(r"Error: (.*)", out)
        rej[str(rest[0]["id"])] = (0, "eval", "trace not evaluable: " + (m.group(1) if m else "rc %d" % rc)[:200])
        return rej
    if depth > 14:
        raise Broken("cannot isolate the TLC failure: " + out[-800:])
    if len(rest) == 1:
        rej.update(validate(spec, rest, work, tally, tag + "x", cfg, depth + 1, env))
        return rej
    h = len(rest) // 2
    rej.update(validate(spec, rest[:h], work, tally, tag + "a", cfg, depth + 1, env))
    rej.update(validate(spec, rest[h:], work, tally, tag + "b", cfg, depth + 1, env))
    return rej


def model_check(module, cfg, env, tally, name=None, extra=()):
    rc, out = tlc(module, cfg, env, extra=extra)
    s, t = counts(out)
    if rc != 0:
        sys.stderr.write(out[-3000:])
        raise Broken("abstract model %s/%s fails (rc %d)" % (module, cfg, rc))
    tally.states += s
    tally.trans += t
    tally.log.append({"model": module, "cfg": cfg, "states": s, "transitions": t})
    return out


# ---------------------------------------------------------------- trimming
def size(d):
    return d["n"] + 2 * len(d["t"])


def trim(obs, cap):
    """cuts a behaviour before the first step whose values are too large to enumerate"""
    cut = 0
    for o in obs:
        keep = []
        for e in o["ev"]:
            if any(isinstance(e.get(k), dict) and "t" in e[k] and size(e[k]) > cap for k in ("res", "arg")):
                cut += 1
                break
            keep.append(e)
        o["ev"] = keep
    return cut


# ---------------------------------------------------------------- main driver
def default_execute(mod, cases, work, tag):
    return vh(cases, work, tag)


def crashes_as_events(obs):
    for o in obs:
        if o.get("crash"):
            o["ev"] = list(o["ev"]) + [{"op": "crash", "r": 0, "exc": "crash: " + o["crash"]}]


def run(mod, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = mod.ID
    os.makedirs(WORK, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + ".", dir=WORK)
    keep = "--keep" in argv
    try:
        tb = B.build(getattr(mod, "TOOLS", []))
        log("%s: built from %s in %.1f s" % (pid, B.REPO, tb))
        tally = Tally()
        if "--replay" in argv:
            rp = json.load(open(argv[argv.index("--replay") + 1]))
            cases = [rp["case"]]
            models = []
        else:
            cases = list(mod.cases(random.Random("%s/%s/%d" % (pid, tier, seed)), tier))
            models = mod.models(tier) if hasattr(mod, "models") else []
        for k, c in enumerate(cases):
            c.setdefault("id", k)
        kf = [] if "--replay" in argv else [dict(c) for c in (mod.known() if hasattr(mod, "known") else [])]
        for m in models:
            model_check(m[0], m[1], m[2] if len(m) > 2 else {}, tally, extra=m[3] if len(m) > 3 else ())
        tm = time.time()
        exe = getattr(mod, "execute", None) or (lambda cs, w, tag: vh(cs, w, tag))
        cap = getattr(mod, "CAP", 60)

        def observe(cs, tag):
            obs = exe(cs, work, tag)
            crashes_as_events(obs)
            cut = trim(obs, cap) if cap else 0
            if hasattr(mod, "post"):
                obs = mod.post(obs, cs)
            return obs, cut

        obs, cut = observe(cases, "o")
        empty = [o for o in obs if not o["ev"]]
        live = [o for o in obs if o["ev"]]
        log("%s: %d behaviours executed in %.1f s (%d steps cut as too large, %d empty)" %
            (pid, len(obs), time.time() - tm, cut, len(empty)))
        tv = time.time()
        rej = validate(mod.SPEC, live, work, tally, "t", getattr(mod, "CFG", None))
        log("%s: TLC validated %d behaviours in %.1f s, %d rejected" % (pid, len(live), time.time() - tv, len(rej)))
        violations = []
        if rej:
            hist = {}
            for k, v in rej.items():
                hist.setdefault(v[1] + ": " + v[2], []).append(k)
            for h, ks in sorted(hist.items()):
                log("  %4d x %s (cases %s)" % (len(ks), h, " ".join(ks[:6])))
            again = [c for c in cases if str(c["id"]) in rej]
            if len(again) > 40:
                again = again[:40]
            again = [dict(c, timeout=4 * c.get("timeout", 30)) for c in again]
            obs2, _ = observe(again, "r")
            rej2 = validate(mod.SPEC, [o for o in obs2 if o["ev"]], work, tally, "r", getattr(mod, "CFG", None))
            o2 = {str(o["id"]): o for o in obs2}
            for c in again:
                if str(c["id"]) in rej2:
                    violations.append((c, o2[str(c["id"])], rej2[str(c["id"])]))
                else:
                    log("%s: case %s rejected once, accepted on re-execution: not reported" % (pid, c["id"]))
        known_lines = 0
        if kf:
            for k, c in enumerate(kf):
                c.setdefault("id", "KF%d" % k)
            obsk, _ = observe(kf, "k")
            rejk = validate(mod.SPEC, [o for o in obsk if o["ev"]], work, tally, "k", getattr(mod, "CFG", None))
            listed = [f for f in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if f["property"] == pid]
            ok = {str(o["id"]): o for o in obsk}
            for c in kf:
                if str(c["id"]) in rejk:
                    ent = [f for f in listed if f["case"] == str(c["id"])]
                    if ent:
                        print("KNOWN-FINDING: property=%s %s" % (pid, ent[0]["what"]), flush=True)
                        known_lines += 1
                    else:
                        violations.append((c, ok[str(c["id"])], rejk[str(c["id"])]))
        # evidence
        ops = {}
        steps = 0
        for o in live:
            for e in o["ev"]:
                steps += 1
                key = e.get("op", "?")
                ops[key] = ops.get(key, 0) + 1
        samples = []
        for o in live[:1] + live[len(live) // 2:len(live) // 2 + 1] + live[-1:]:
            samples.append(json.loads(json.dumps(o))if len(json.dumps(o)) < 4000 else {"id": o["id"], "ops": [e.get("op") for e in o["ev"]]})
        ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
              "coverage": {"states": tally.states, "transitions": tally.trans,
                           "traces_validated_against_impl": len(live),
                           "evaluations": steps,
                           "distinct_nontrivial": len(set(hashlib.sha1(json.dumps(o["ev"], sort_keys=True).encode()).hexdigest()
                                                          for o in live if len(o["ev"]) > 0)),
                           "rule": getattr(mod, "RULE", "distinct logged behaviours with at least one checked step"),
                           "operations": ops, "cut_steps": cut, "models": tally.log,
                           "known_findings_seen": known_lines, "samples": samples},
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
        if not samples:
            raise Broken("nothing was covered")
        if "--replay" not in argv:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as h:
                json.dump(ev, h, indent=1)
        if violations:
            rd = os.path.join(WORK, "replay")
            os.makedirs(rd, exist_ok=True)
            order = sorted(violations, key=lambda v: (sum(1 for w in violations if w[2][1:] == v[2][1:]), len(json.dumps(v[0]))))
            pick = []
            for v in order:      # one of every kind first
                if v[2][1:] not in [w[2][1:] for w in pick]:
                    pick.append(v)
            pick += [v for v in order if v not in pick]
            for k, (c, o, why) in enumerate(pick[:8]):
                p = os.path.join(rd, "%s-%s.json" % (pid, c["id"]))
                with open(p, "w") as h:
                    json.dump({"property": pid, "why": {"event": why[0], "op": why[1], "reason": why[2]}, "case": c, "observed": o,
                               "rerun": "python3 checks/run.py %s --replay %s" % (pid, p)}, h, indent=1)
                print("# rejected: case %s event %d op %s: %s" % (c["id"], why[0], why[1], why[2]))
                print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
            return 1
        log("%s: OK in %.1f s" % (pid, time.time() - t0))
        return 0
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
