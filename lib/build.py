#!/usr/bin/env python3
"""Build libhfst, the tools and the verification harness from /repo's current working tree.

/repo's sources are mirrored by CONTENT into /verif/build/src (a file whose bytes changed gets a
new mtime, a file whose bytes did not change keeps its old one), and ninja builds from the mirror.
So the result never depends on mtimes in /repo, and nothing is ever written in /repo.
"""
import fcntl, glob, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")
OBJ = os.path.join(BUILD, "obj")
BIN = os.path.join(BUILD, "bin")
OPT = "-O1"

MIRROR = ["libhfst/src", "back-ends", "tools/src"]
EXT = (".cc", ".cpp", ".c", ".h", ".hh", ".hpp", ".yy", ".ll")


def is_generated(d, f, names):
    stem, ext = os.path.splitext(f)
    if ext in (".cc", ".hh") and (stem + ".yy" in names or stem + ".ll" in names):
        return True
    return False


def put(dst, data):
    try:
        with open(dst, "rb") as h:
            if h.read() == data:
                return False
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    tmp = dst + ".tmp~"
    with open(tmp, "wb") as h:
        h.write(data)
    os.replace(tmp, dst)
    return True


def mirror():
    want = set()
    changed = []
    for top in MIRROR:
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = [x for x in dirs if x not in (".libs", ".deps", "autom4te.cache")]
            names = set(files)
            for f in files:
                if not f.endswith(EXT) or is_generated(d, f, names):
                    continue
                p = os.path.join(d, f)
                if os.path.islink(p) and not os.path.exists(p):
                    continue
                rel = os.path.relpath(p, REPO)
                want.add(rel)
                with open(p, "rb") as h:
                    data = h.read()
                if put(os.path.join(SRC, rel), data):
                    changed.append(rel)
    cfg = os.path.join(REPO, "config.h")
    if not os.path.exists(cfg):
        cfg = os.path.join(VERIF, "lib", "config.h.fallback")
    put(os.path.join(SRC, "config.h"), open(cfg, "rb").read())
    want.add("config.h")
    hpp = os.path.join(SRC, "libhfst/src/hfst.hpp")
    if not os.path.exists(hpp) and os.path.exists(hpp + ".in"):
        put(hpp, open(hpp + ".in", "rb").read())
        want.add("libhfst/src/hfst.hpp")
    # generated parser files live in the mirror, made by ninja below
    for d, dirs, files in os.walk(SRC):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), SRC)
            if rel in want or f.endswith(".tmp~"):
                continue
            stem, ext = os.path.splitext(rel)
            if ext in (".cc", ".hh") and (stem + ".yy" in want or stem + ".ll" in want):
                continue
            os.unlink(os.path.join(d, f))
    return changed


def words(s):
    return s.split()


def lib_sources():
    R = "libhfst/src/"
    out = [R + f for f in words(
        "HfstApply.cc HfstInputStream.cc HfstTransducer.cc HfstOutputStream.cc HfstRules.cc HfstXeroxRules.cc "
        "HfstDataTypes.cc HfstSymbolDefs.cc HfstTokenizer.cc HfstFlagDiacritics.cc HfstExceptionDefs.cc "
        "HarmonizeUnknownAndIdentitySymbols.cc HfstLookupFlagDiacritics.cc HfstEpsilonHandler.cc "
        "HfstStrings2FstTokenizer.cc HfstPrintDot.cc HfstPrintPCKimmo.cc hfst-string-conversions.cc string-utils.cc")]
    out += [R + "implementations/" + f for f in words(
        "ConvertTransducerFormat.cc HfstTropicalTransducerTransitionData.cc HfstBasicTransition.cc "
        "HfstBasicTransducer.cc ConvertSfstTransducer.cc ConvertTropicalWeightTransducer.cc "
        "ConvertLogWeightTransducer.cc ConvertFomaTransducer.cc ConvertOlTransducer.cc ConvertXfsmTransducer.cc "
        "SfstTransducer.cc TropicalWeightTransducer.cc LogWeightTransducer.cc FomaTransducer.cc HfstOlTransducer.cc")]
    for pat in ("implementations/compose_intersect/*.cc", "implementations/optimized-lookup/*.cc",
                "parsers/*_src/*.cc"):
        out += sorted(os.path.relpath(p, SRC) for p in glob.glob(os.path.join(SRC, R + pat)))
    gen = []
    for p in sorted(glob.glob(os.path.join(SRC, R + "parsers/*.yy")) + glob.glob(os.path.join(SRC, R + "parsers/*.ll"))):
        gen.append(os.path.relpath(p, SRC))
    gencc = set(os.path.splitext(g)[0] + ".cc" for g in gen)
    for p in sorted(glob.glob(os.path.join(SRC, R + "parsers/*.cc"))):
        rel = os.path.relpath(p, SRC)
        if rel not in gencc:
            out.append(rel)
    out += sorted(gencc)
    out += ["back-ends/sfst/" + f for f in words(
        "alphabet.cc basic.cc utf8.cc compact.cc fst.cc operators.cc determinise.cc generate.cc hopcroft.cc")]
    return out, gen


COMMON = ["tools/src/hfst-program-options.cc", "tools/src/hfst-commandline.cc", "tools/src/hfst-tool-metadata.cc"]
TOOLS = {}
for t in words("affix-guessify check-alpha compare compose-intersect compose concatenate conjunct determinize "
               "disjunct dump-alphabets priority-disjunct multiply expand-equivalences edit-metadata "
               "eliminate-flags format fst2fst fst2strings fst2txt grep head info invert insert-freely kill-paths "
               "lookup flookup pair-test minimize name pmatch tokenize project prune-alphabet push-labels "
               "push-weights realign remove-epsilons repeat reverse reweight shuffle split "
               "strings2fst substitute subtract summarize tail traverse txt2fst pmatch2fst"):
    TOOLS["hfst-" + t] = ["tools/src/hfst-%s.cc" % t] + COMMON
TOOLS["hfst-lexc"] = ["tools/src/hfst-lexc-compiler.cc"] + COMMON
TOOLS["hfst-regexp2fst"] = ["tools/src/hfst-regexp2fst.cc", "tools/src/hfst-file-to-mem.cc"] + COMMON
TOOLS["hfst-calculate"] = ["tools/src/sfst-main.cc"] + COMMON
TOOLS["hfst-optimized-lookup"] = ["tools/src/hfst-optimized-lookup.cc"]
TOOLS["hfst-guessify"] = ["tools/src/hfst-guessify.cc", "tools/src/guessify_fst.cc"] + COMMON
TOOLS["hfst-guess"] = ["tools/src/hfst-guess.cc", "tools/src/generate_model_forms.cc", "tools/src/guessify_fst.cc"] + COMMON
TOOLS["hfst-xfst"] = ["tools/src/parsers/hfst-xfst.cc", "tools/src/hfst-file-to-mem.cc"] + COMMON
TOOLS["hfst-twolc"] = ["tools/src/hfst-twolc/src/hfst-twolc.cc"]
TOOLS["hfst-apertium-proc"] = ["tools/src/hfst-proc/%s.cc" % f for f in
                               words("hfst-proc formatter lookup-path lookup-state tokenizer transducer applicators alphabet")]

LIBS = "-licui18n -licuuc -licudata -lfoma -lfst -lreadline -lm -lpthread -ldl"


def write_ninja(tools):
    libsrc, gen = lib_sources()
    L = []
    inc = "-I%s -I%s/libhfst/src -I%s/libhfst/src/parsers -I%s/back-ends -I%s/tools/src -I%s/tools/src/parsers" % ((SRC,) * 6)
    L.append("builddir = %s" % OBJ)
    L.append("rule cxx\n command = g++ $std %s -fPIC -w -DHAVE_CONFIG_H %s -MMD -MF $out.d -c $in -o $out\n"
             " depfile = $out.d\n deps = gcc\n description = CXX $in" % (OPT, inc))
    L.append("rule yacc\n command = cd $dir && bison -y -d -o $base.cc $base.yy 2>/dev/null\n description = YACC $in\n restat = 1")
    L.append("rule lex\n command = cd $dir && flex --outfile=$base.cc $base.ll 2>/dev/null\n description = LEX $in")
    L.append("rule so\n command = g++ -shared -o $out @$out.rsp %s\n rspfile = $out.rsp\n rspfile_content = $in\n description = SO $out" % LIBS)
    L.append("rule exe\n command = g++ -o $out $objs -L%s -lhfstv -Wl,-rpath,%s %s\n description = EXE $out" % (BIN, BIN, LIBS))
    hdrs = []
    for g in gen:
        d, f = os.path.split(os.path.join(SRC, g))
        stem, ext = os.path.splitext(f)
        if ext == ".yy":
            L.append("build %s/%s.cc %s/%s.hh: yacc %s/%s.yy\n dir = %s\n base = %s" % (d, stem, d, stem, d, stem, d, stem))
            hdrs.append("%s/%s.hh" % (d, stem))
        else:
            L.append("build %s/%s.cc: lex %s/%s.ll\n dir = %s\n base = %s" % (d, stem, d, stem, d, stem))
    done = {}

    def obj(rel, path=None):
        if rel in done:
            return done[rel]
        p = path or os.path.join(SRC, rel)
        std = "-std=c++20"
        if os.path.exists(p):
            txt = open(p, errors="replace").read()
            if re.search(r"#include *<fst/fstlib\.h>", txt):
                std = "-std=c++17"
        o = os.path.join(OBJ, rel.replace("/", "_") + ".o")
        L.append("build %s: cxx %s || %s\n std = %s" % (o, p, " ".join(hdrs), std))
        done[rel] = o
        return o

    so = os.path.join(BIN, "libhfstv.so")
    L.append("build %s: so %s" % (so, " ".join(obj(s) for s in libsrc)))
    targets = [so]
    for h in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cc"))):
        n = os.path.splitext(os.path.basename(h))[0]
        o = obj("harness/" + n + ".cc", h)
        e = os.path.join(BIN, n)
        L.append("build %s: exe %s %s\n objs = %s" % (e, o, so, o))
        targets.append(e)
    for t in tools:
        objs = [obj(s) for s in TOOLS[t]]
        e = os.path.join(BIN, t)
        L.append("build %s: exe %s %s\n objs = %s" % (e, " ".join(objs), so, " ".join(objs)))
        targets.append(e)
    L.append("default " + " ".join(targets))
    return "\n".join(L) + "\n", targets


def build(tools=(), verbose=False):
    """returns the seconds taken; raises on failure"""
    t0 = time.time()
    os.makedirs(OBJ, exist_ok=True)
    os.makedirs(BIN, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror()
        have = set()
        sel = os.path.join(BUILD, "tools.sel")
        txt, targets = write_ninja(sorted(TOOLS))
        put(os.path.join(BUILD, "build.ninja"), txt.encode())
        want = [os.path.join(BIN, "libhfstv.so")]
        want += [t for t in targets if os.path.exists(os.path.join(VERIF, "harness", os.path.basename(t) + ".cc"))]
        want += [os.path.join(BIN, t) for t in tools]
        r = subprocess.run(["ninja", "-C", BUILD, "-j", str(os.cpu_count() or 8)] + want,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with open(os.path.join(BUILD, "build.log"), "w") as h:
            h.write(r.stdout)
        if verbose:
            print(r.stdout[-2000:])
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-4000:])
            raise RuntimeError("build failed")
    return time.time() - t0


if __name__ == "__main__":
    args = sys.argv[1:]
    tools = sorted(TOOLS) if args == ["all"] else args
    print("built in %.1f s" % build(tools, verbose=True))
