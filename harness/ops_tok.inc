// ---------------------------------------------------------------- tokenizers and string constructors
static std::map<int, std::unique_ptr<HfstTokenizer>> g_tk;
static bool exec_tok(Env &E, const json &o, json &e, const std::string &op)
{
    auto J = [&](const char *k) { return joined(o[k]); };
    auto put = [&](HfstTransducer *t) { E.R[o["r"].get<int>()].reset(t); e["res"] = dump(*t); };
    auto pairs = [&](const StringPairVector &v) { json a = json::array(); for (auto &p : v) a.push_back({out(p.first), out(p.second)}); return a; };
    bool split = flag(o, "split", false);
    if (op == "tk_new") g_tk[o["tk"].get<int>()].reset(new HfstTokenizer());
    else if (op == "tk_multi") g_tk.at(o["tk"])->add_multichar_symbol(J("s"));
    else if (op == "tk_skip") g_tk.at(o["tk"])->add_skip_symbol(J("s"));
    else if (op == "tk_one") e["ans"] = g_tk.at(o["tk"])->tokenize_one_level(J("s"), split);
    else if (op == "tk_tok") e["ans"] = pairs(g_tk.at(o["tk"])->tokenize(J("s"), split));
    else if (op == "tk_pair") e["ans"] = pairs(g_tk.at(o["tk"])->tokenize(J("s"), J("o"), split));
    else if (op == "tk_space") e["ans"] = pairs(HfstTokenizer::tokenize_space_separated(J("s")));
    else if (op == "tk_bytes") {
        std::string s;
        for (auto &b : o["bytes"]) s += (char)b.get<int>();
        std::string how = o["how"];
        if (how == "one") g_tk.at(o["tk"])->tokenize_one_level(s, split);
        else if (how == "pair") g_tk.at(o["tk"])->tokenize("a", s, split);
        else if (how == "space") HfstTokenizer::tokenize_space_separated(s);
        else if (how == "mk") HfstTransducer(s, *g_tk.at(o["tk"]), typ(o["type"]));
        else g_tk.at(o["tk"])->tokenize(s, split);
    } else if (op == "mk_str") put(new HfstTransducer(J("s"), *g_tk.at(o["tk"]), typ(o["type"])));
    else if (op == "mk_str2") put(new HfstTransducer(J("s"), J("o"), *g_tk.at(o["tk"]), typ(o["type"])));
    else if (op == "mk_sym") put(new HfstTransducer(in(o["i"]), typ(o["type"])));
    else if (op == "mk_sym2") put(new HfstTransducer(in(o["i"]), in(o["o"]), typ(o["type"])));
    else if (op == "mk_spv") {
        StringPairVector v;
        for (auto &p : o["pairs"]) v.push_back(StringPair(in(p[0]), in(p[1])));
        put(new HfstTransducer(v, typ(o["type"])));
    } else if (op == "mk_set") {
        StringPairSet v;
        for (auto &p : o["pairs"]) v.insert(StringPair(in(p[0]), in(p[1])));
        put(new HfstTransducer(v, typ(o["type"]), flag(o, "cyclic", false)));
    } else if (op == "mk_sets") {
        std::vector<StringPairSet> v;
        for (auto &s : o["sets"]) {
            v.push_back(StringPairSet());
            for (auto &p : s) v.back().insert(StringPair(in(p[0]), in(p[1])));
        }
        put(new HfstTransducer(v, typ(o["type"])));
    } else return false;
    return true;
}
