// Verification harness: executes programs (one JSON object per line) against libhfst and logs, after
// every call, the projection of the objects involved.  One forked child per case, so a crash or a hang
// of the library is an observation of that case and of no other.
#include <nlohmann/json.hpp>
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include "HfstTransducer.h"
#include "HfstInputStream.h"
#include "HfstOutputStream.h"
#include "HfstTokenizer.h"
#include "HfstStrings2FstTokenizer.h"
#include "HfstFlagDiacritics.h"
#include "HfstXeroxRules.h"
#include "implementations/HfstBasicTransducer.h"
#include "parsers/XreCompiler.h"
#include "parsers/LexcCompiler.h"
#include "parsers/PmatchCompiler.h"
#include "parsers/XfstCompiler.h"
#include "parsers/TwolcCompiler.h"
#include "implementations/optimized-lookup/pmatch.h"
#include "implementations/optimized-lookup/pmatch_tokenize.h"

using json = nlohmann::json;
using namespace hfst;
using hfst::implementations::HfstBasicTransducer;
using hfst::implementations::HfstBasicTransition;

static const std::string EPS = "@_EPSILON_SYMBOL_@", UNKN = "@_UNKNOWN_SYMBOL_@", IDEN = "@_IDENTITY_SYMBOL_@";

static std::string in(const std::string &s)
{
    if (s == "") return EPS;
    if (s == "@U") return UNKN;
    if (s == "@I") return IDEN;
    return s;
}
static std::string out(const std::string &s)
{
    if (s == EPS) return "";
    if (s == UNKN) return "@U";
    if (s == IDEN) return "@I";
    return s;
}

static ImplementationType typ(const std::string &s)
{
    if (s == "sfst") return SFST_TYPE;
    if (s == "tropical") return TROPICAL_OPENFST_TYPE;
    if (s == "log") return LOG_OPENFST_TYPE;
    if (s == "foma") return FOMA_TYPE;
    if (s == "ol") return HFST_OL_TYPE;
    if (s == "olw") return HFST_OLW_TYPE;
    throw std::runtime_error("bad type " + s);
}
static std::string typ_name(ImplementationType t)
{
    switch (t) {
    case SFST_TYPE: return "sfst";
    case TROPICAL_OPENFST_TYPE: return "tropical";
    case LOG_OPENFST_TYPE: return "log";
    case FOMA_TYPE: return "foma";
    case HFST_OL_TYPE: return "ol";
    case HFST_OLW_TYPE: return "olw";
    default: return "other";
    }
}

static int wq(float w, bool &inexact)
{
    if (std::isinf(w) || std::isnan(w) || std::fabs(w) > 1000000) return w > 0 ? 4000000 : -4000000;
    double x = (double)w * 4.0;
    long r = lround(x);
    if (std::fabs(x - (double)r) > 1e-3) inexact = true;
    return (int)r;
}

static json dump_basic(const HfstBasicTransducer &b)
{
    json t = json::array(), f = json::array(), a = json::array();
    bool inexact = false;
    unsigned s = 0;
    unsigned n = 0;
    for (auto it = b.begin(); it != b.end(); ++it, ++s) {
        n = s + 1;
        if (b.is_final_state(s)) f.push_back({s, wq(b.get_final_weight(s), inexact)});
        for (auto tr = it->begin(); tr != it->end(); ++tr) {
            t.push_back({s, tr->get_target_state(), out(tr->get_input_symbol()), out(tr->get_output_symbol()),
                         wq(tr->get_weight(), inexact)});
            if (tr->get_target_state() + 1 > n) n = tr->get_target_state() + 1;
        }
    }
    for (auto &x : b.get_alphabet()) a.push_back(out(x));
    return {{"n", n}, {"t", t}, {"f", f}, {"a", a}, {"wx", inexact ? 1 : 0}};
}
static json dump(const HfstTransducer &t) { return dump_basic(HfstBasicTransducer(t)); }

static HfstBasicTransducer load_basic(const json &j)
{
    HfstBasicTransducer b;
    int n = j["n"];
    for (int i = 1; i < n; i++) b.add_state(i);
    for (auto &x : j["t"])
        b.add_transition(x[0].get<int>(), HfstBasicTransition(x[1].get<int>(), in(x[2]), in(x[3]), x[4].get<double>() / 4.0));
    for (auto &x : j["f"]) b.set_final_weight(x[0].get<int>(), x[1].get<double>() / 4.0);
    if (j.contains("a"))
        for (auto &x : j["a"]) b.add_symbol_to_alphabet(in(x.get<std::string>()));
    return b;
}

static json spv_json(const StringPairVector &v)
{
    json a = json::array(), b = json::array();
    for (auto &p : v) { a.push_back(out(p.first)); b.push_back(out(p.second)); }
    return json::array({a, b});
}
static json two_level(const HfstTwoLevelPaths &ps)
{
    json r = json::array();
    for (auto &p : ps) {
        bool ix = false;
        json e = spv_json(p.second);
        r.push_back({e[0], e[1], wq(p.first, ix)});
    }
    return r;
}
static json one_level(const HfstOneLevelPaths &ps)
{
    json r = json::array();
    for (auto &p : ps) {
        bool ix = false;
        json e = json::array();
        for (auto &s : p.second) e.push_back(out(s));
        r.push_back({e, wq(p.first, ix)});
    }
    return r;
}
static StringVector svec(const json &j)
{
    StringVector v;
    for (auto &x : j) v.push_back(in(x.get<std::string>()));
    return v;
}
static StringPair sp(const json &j) { return StringPair(in(j[0]), in(j[1])); }
static StringPairSet sps(const json &j)
{
    StringPairSet r;
    for (auto &x : j) r.insert(sp(x));
    return r;
}

static float fn_double(float w) { return 2 * w; }
static float fn_plus(float w) { return w + 0.5f; }
static float fn_zero(float) { return 0; }

// substitution function used by op "substitute_func": a:a -> {a:b, b:b}
static bool subst_fn(const StringPair &p, StringPairSet &s)
{
    if (p.first == "a" && p.second == "a") { s.insert(StringPair("a", "b")); s.insert(StringPair("b", "b")); return true; }
    return false;
}

static std::string scratch; // per-child scratch directory

static std::string slurp(const std::string &f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream ss;
    ss << i.rdbuf();
    return ss.str();
}
static void spit(const std::string &f, const std::string &d)
{
    std::ofstream o(f, std::ios::binary);
    o << d;
}
static json strlist(const StringSet &s)
{
    json r = json::array();
    for (auto &x : s) r.push_back(out(x));
    return r;
}
static std::string hex(const std::string &s)
{
    std::string r;
    char b[4];
    for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; }
    return r;
}
static std::string unhex(const std::string &s)
{
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), NULL, 16);
    return r;
}

struct Env
{
    std::map<int, std::unique_ptr<HfstTransducer>> R;
    std::map<int, std::unique_ptr<HfstBasicTransducer>> B;
    std::unique_ptr<xfst::XfstCompiler> xf;
    std::unique_ptr<xre::XreCompiler> xr;
    std::unique_ptr<lexc::LexcCompiler> lx;
    ImplementationType type;
    HfstTransducer &r(const json &o, const char *k = "r")
    {
        auto it = R.find(o[k].get<int>());
        if (it == R.end()) throw std::runtime_error("no register");
        return *it->second;
    }
    HfstBasicTransducer &b(const json &o, const char *k = "r")
    {
        auto it = B.find(o[k].get<int>());
        if (it == B.end()) throw std::runtime_error("no basic register");
        return *it->second;
    }
};

static bool flag(const json &o, const char *k, bool d) { return o.contains(k) ? (o[k].is_boolean() ? o[k].get<bool>() : o[k].get<int>() != 0) : d; }

// redirect fds 1,2 to files while f runs; returns the captured text
template <class F> static void captured(F f, std::string &so, std::string &se)
{
    fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
    int o1 = dup(1), o2 = dup(2);
    std::string a = scratch + "/so", b = scratch + "/se";
    int f1 = open(a.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600), f2 = open(b.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    dup2(f1, 1); dup2(f2, 2); close(f1); close(f2);
    std::exception_ptr ep;
    try { f(); } catch (...) { ep = std::current_exception(); }
    fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
    dup2(o1, 1); dup2(o2, 2); close(o1); close(o2);
    so = slurp(a); se = slurp(b);
    if (ep) std::rethrow_exception(ep);
}

#include "ops.inc"

static json run_case(const json &c)
{
    json ev = json::array();
    Env E;
    E.type = c.contains("type") ? typ(c["type"]) : TROPICAL_OPENFST_TYPE;
    for (auto &o : c["prog"]) {
        json e = o;
        if (e.contains("fst") && flag(e, "quiet", false)) e.erase("fst");
        e["exc"] = "";
        try {
            exec(E, o, e);
        } catch (const HfstException &x) {
            e["exc"] = x.name.empty() ? "HfstException" : x.name;
        } catch (const std::exception &x) {
            e["exc"] = std::string("std:") + x.what();
        } catch (const char *x) {
            e["exc"] = std::string("char:") + x;
        } catch (const std::string &x) {
            e["exc"] = std::string("string:") + x;
        } catch (...) {
            e["exc"] = "unknown";
        }
        if (e["exc"] != "") {
            std::string x = e["exc"];
            std::string y;
            for (char ch : x) y += (ch >= 32 && ch < 127) ? ch : '?';
            if (y.find("Exception: ") != std::string::npos) {
                e["msg"] = y.substr(y.find(": ") + 2);
                y = y.substr(0, y.find(": "));
            }
            e["exc"] = y;
        }
        ev.push_back(e);
    }
    json r = c;
    r.erase("prog");
    r["ev"] = ev;
    r["crash"] = "";
    return r;
}

static void child(const json &c, int fd)
{
    struct rlimit rl = {6ul << 30, 6ul << 30};
    setrlimit(RLIMIT_AS, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    char tmpl[] = "/tmp/vh.XXXXXX";
    (void)fd;
    alarm(c.contains("timeout") ? c["timeout"].get<int>() : 30);
    json r = run_case(c);
    std::string s = r.dump(-1, ' ', true, json::error_handler_t::replace) + "\n";
    size_t off = 0;
    while (off < s.size()) {
        ssize_t k = write(fd, s.data() + off, s.size() - off);
        if (k <= 0) _exit(9);
        off += k;
    }
    (void)tmpl;
    fflush(NULL);
    _exit(0);
}

int main(int argc, char **argv)
{
    if (argc < 3) { fprintf(stderr, "usage: vh cases out [jobs]\n"); return 2; }
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    std::ifstream f(argv[1]);
    std::vector<std::string> lines;
    for (std::string l; std::getline(f, l);)
        if (!l.empty()) lines.push_back(l);
    std::vector<pid_t> ws;
    char base[] = "/tmp/vh.XXXXXX";
    if (!mkdtemp(base)) return 2;
    for (int w = 0; w < jobs; w++) {
        pid_t p = fork();
        if (p) { ws.push_back(p); continue; }
        std::ofstream o(std::string(argv[2]) + "." + std::to_string(w));
        scratch = std::string(base) + "/" + std::to_string(w);
        int dn = open("/dev/null", O_RDWR);
        dup2(dn, 0);
        if (!getenv("VH_VERBOSE")) { dup2(dn, 1); dup2(dn, 2); }
        for (size_t i = w; i < lines.size(); i += jobs) {
            json c = json::parse(lines[i]);
            mkdir(scratch.c_str(), 0700);
            int fd[2];
            if (pipe(fd)) _exit(3);
            pid_t q = fork();
            if (q == 0) {
                close(fd[0]);
                (void)!chdir(scratch.c_str());
                child(c, fd[1]);
            }
            close(fd[1]);
            std::string s;
            char buf[65536];
            ssize_t k;
            while ((k = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, k);
            close(fd[0]);
            int st;
            waitpid(q, &st, 0);
            if (!s.empty() && s.back() == '\n' && WIFEXITED(st) && WEXITSTATUS(st) == 0)
                o << s;
            else {
                json r = c;
                r.erase("prog");
                r["ev"] = json::array();
                if (WIFSIGNALED(st)) r["crash"] = WTERMSIG(st) == SIGALRM ? "timeout" : "signal " + std::to_string(WTERMSIG(st));
                else r["crash"] = "exit " + std::to_string(WEXITSTATUS(st));
                o << r.dump() << "\n";
            }
            std::string rm = "rm -rf " + scratch;
            if (scratch.rfind("/tmp/vh.", 0) == 0) (void)!system(rm.c_str());
        }
        o.close();
        _exit(0);
    }
    int bad = 0;
    for (pid_t p : ws) {
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1;
    }
    std::ofstream o(argv[2]);
    for (int w = 0; w < jobs; w++) {
        std::string n = std::string(argv[2]) + "." + std::to_string(w);
        std::ifstream i(n);
        if (i.peek() != EOF) o << i.rdbuf();
        unlink(n.c_str());
    }
    rmdir(base);
    return bad;
}
