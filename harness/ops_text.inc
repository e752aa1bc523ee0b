// ---------------------------------------------------------------- text formats
static json u8split(const std::string &s)
{
    json r = json::array();
    for (size_t i = 0; i < s.size();) {
        size_t n = 1;
        while (i + n < s.size() && ((unsigned char)s[i + n] & 0xC0) == 0x80) ++n;
        r.push_back(s.substr(i, n));
        i += n;
    }
    return r;
}
static json att_toks(const std::string &s)
{
    json r = json::array();
    static const char *esc[] = {"@_SPACE_@", "@_TAB_@", "@_COLON_@"};
    std::string rest;
    for (size_t i = 0; i < s.size();) {
        bool hit = false;
        for (auto x : esc)
            if (s.compare(i, strlen(x), x) == 0) {
                for (auto &c : u8split(rest)) r.push_back(c);
                rest.clear();
                r.push_back(x);
                i += strlen(x);
                hit = true;
                break;
            }
        if (!hit) rest += s[i++];
    }
    for (auto &c : u8split(rest)) r.push_back(c);
    return r;
}
static bool number(const std::string &s, json &n)
{
    if (s.empty() || s.size() > 7) return false;
    for (char c : s) if (c < '0' || c > '9') return false;
    n = atoi(s.c_str());
    return true;
}
static bool weight4(const std::string &s, json &w)
{
    char *e = nullptr;
    if (s.empty() || isspace((unsigned char)s[0])) return false;
    double x = strtod(s.c_str(), &e);
    if (*e) return false;
    bool ix = false;
    w = wq((float)x, ix);
    return !ix;
}
static std::vector<std::string> cut_lines(const std::string &s)
{
    std::vector<std::string> r;
    size_t b = 0;
    while (b < s.size()) {
        size_t e = s.find('\n', b);
        if (e == std::string::npos) e = s.size();
        r.push_back(s.substr(b, e - b));
        b = e + 1;
    }
    return r;
}
static json att_line(const std::string &l)
{
    std::vector<std::string> f(1);
    json j, bad = {{"k", "bad"}, {"text", l}};
    if (l == "--") return {{"k", "sep"}};
    for (char c : l) {
        if (c == '\t') f.push_back("");
        else if (c == ' ') return bad;
        else f.back() += c;
    }
    if (f.size() <= 2) {
        j["k"] = "fin";
        if (!number(f[0], j["s"]) || (f.size() == 2 && !weight4(f[1], j["w"]))) return bad;
    } else if (f.size() == 4 || f.size() == 5) {
        j["k"] = "arc";
        if (!number(f[0], j["s"]) || !number(f[1], j["t"]) || f[2].empty() || f[3].empty() || (f.size() == 5 && !weight4(f[4], j["w"]))) return bad;
        j["i"] = att_toks(f[2]);
        j["o"] = att_toks(f[3]);
    } else return bad;
    return j;
}
// "..." at position p: the tokens between the quotes
static bool quoted(const std::string &l, size_t &p, json &toks)
{
    toks = json::array();
    if (p >= l.size() || l[p] != '"') return false;
    std::string rest;
    auto flush = [&]() { for (auto &c : u8split(rest)) toks.push_back(c); rest.clear(); };
    for (++p; p < l.size(); ++p) {
        if (l[p] == '"') { flush(); ++p; return true; }
        if (l[p] == '\\' && p + 1 < l.size()) { flush(); toks.push_back(l.substr(p, 2)); ++p; }
        else rest += l[p];
    }
    return false;
}
static json prolog_line(const std::string &l)
{
    json j, bad = {{"k", "bad"}, {"text", l}};
    if (l.empty()) return {{"k", "sep"}};
    if (l[0] == '#') return {{"k", "com"}};
    size_t p = l.find('(');
    if (p == std::string::npos || l.size() < p + 3 || l.substr(l.size() - 2) != ").") return bad;
    std::string head = l.substr(0, p), body = l.substr(p + 1, l.size() - p - 3);
    if (head == "network") return {{"k", "net"}, {"name", body}};
    size_t q = body.find(", ");
    if (q == std::string::npos) return bad;
    j["name"] = body.substr(0, q);
    body = body.substr(q + 2);
    auto field = [&](std::string &x) { size_t k = body.find(", "); if (k == std::string::npos) { x = body; body.clear(); } else { x = body.substr(0, k); body = body.substr(k + 2); } };
    std::string a, b;
    if (head == "symbol") {
        size_t z = 0;
        j["k"] = "sym";
        if (!quoted(body, z, j["i"]) || z != body.size()) return bad;
    } else if (head == "final") {
        j["k"] = "fin";
        field(a);
        if (!number(a, j["s"]) || (!body.empty() && !weight4(body, j["w"]))) return bad;
    } else if (head == "arc") {
        j["k"] = "arc";
        field(a);
        field(b);
        size_t z = 0;
        if (!number(a, j["s"]) || !number(b, j["t"]) || !quoted(body, z, j["i"])) return bad;
        if (z < body.size() && body[z] == ':') {
            ++z;
            if (!quoted(body, z, j["o"])) return bad;
        } else j["one"] = 1;
        if (z < body.size()) {
            if (body.compare(z, 2, ", ") != 0 || !weight4(body.substr(z + 2), j["w"])) return bad;
        }
    } else return bad;
    return j;
}
static std::string joined(const json &t)
{
    std::string s;
    for (auto &x : t) s += x.get<std::string>();
    return s;
}
static std::string w_text(const json &w)
{
    std::ostringstream o;
    o << w.get<int>() / 4.0;
    return o.str();
}
static std::string text_of(const json &j, const std::string &fmt, const std::string &sep)
{
    std::string k = j["k"];
    auto num = [&](const char *f) { return std::to_string(j[f].get<int>()); };
    if (k == "bad" || k == "com") return j["text"];
    if (fmt == "att") {
        if (k == "sep") return "--";
        std::string s = num("s");
        if (k == "arc") s += sep + num("t") + sep + joined(j["i"]) + sep + joined(j["o"]);
        if (j.contains("w")) s += sep + w_text(j["w"]);
        return s;
    }
    if (k == "sep") return "";
    std::string n = j["name"];
    if (k == "net") return "network(" + n + ").";
    if (k == "sym") return "symbol(" + n + ", \"" + joined(j["i"]) + "\").";
    std::string s = (k == "arc" ? "arc(" : "final(") + n + ", " + num("s");
    if (k == "arc") {
        s += ", " + num("t") + ", \"" + joined(j["i"]) + "\"";
        if (!j.contains("one")) s += ":\"" + joined(j["o"]) + "\"";
    }
    if (j.contains("w")) s += ", " + w_text(j["w"]);
    return s + ").";
}
static bool exec_text(Env &E, const json &o, json &e, const std::string &op)
{
    auto S = [&](const char *k) { return o[k].get<std::string>(); };
    if (op == "text_write") {
        HfstTransducer &t = E.r(o);
        std::string fmt = S("fmt"), how = S("how"), text;
        bool w = flag(o, "weights", true);
        e["lines"] = json::array();
        if (how == "stream") {
            std::ostringstream os;
            HfstBasicTransducer b(t);
            if (fmt == "att") b.write_in_att_format(os, w); else b.write_in_prolog_format(os, S("name"), w);
            text = os.str();
        } else if (how == "buf" && fmt == "att") {
            std::vector<char> buf(200000, 0);
            t.write_in_att_format(&buf[0], w);
            text = &buf[0];
        } else if (how == "name" && fmt == "att") {
            t.write_in_att_format(std::string("tw.tmp"), w);
            text = slurp("tw.tmp");
        } else if (how == "num" && fmt == "att") {      // symbol numbers instead of symbols
            FILE *f = fopen("tw.tmp", "wb");
            t.write_in_att_format_number(f, w);
            fclose(f);
            HfstBasicTransducer b(t);
            std::map<std::string, std::string> sym;
            for (auto &st : b) for (auto &tr : st) {
                sym[std::to_string(tr.get_input_number())] = tr.get_input_symbol();
                sym[std::to_string(tr.get_output_number())] = tr.get_output_symbol();
            }
            for (auto &l : cut_lines(slurp("tw.tmp"))) {
                json j = att_line(l);
                if (j["k"] == "arc") {
                    for (auto k : {"i", "o"}) {
                        std::string n = joined(j[k]);
                        j[k] = sym.count(n) ? json::array({sym[n]}) : json::array({"no symbol has number " + n});
                    }
                }
                e["lines"].push_back(j);
            }
            e["res"] = dump(t);
            return true;
        } else if (how == "print" && fmt == "att") {
            std::ostringstream os;
            os << t;
            text = os.str();
        } else {
            FILE *f = fopen("tw.tmp", "wb");
            try { if (fmt == "att") t.write_in_att_format(f, w); else t.write_in_prolog_format(f, S("name"), w); } catch (...) { fclose(f); throw; }
            fclose(f);
            text = slurp("tw.tmp");
        }
        e["lines"] = json::array();
        for (auto &l : cut_lines(text)) e["lines"].push_back(fmt == "att" ? att_line(l) : prolog_line(l));
        std::string file = S("file");
        if (file != "") {
            std::ifstream was(file);
            std::string all = was.good() ? slurp(file) + (fmt == "att" ? "--\n" : "\n") : "";
            spit(file, all + text);
        }
        e["res"] = dump(t);
    } else if (op == "text_put") {
        std::string s;
        for (auto &l : o["lines"]) s += text_of(l, S("fmt"), S("sep")) + (flag(o, "crlf", false) ? "\r\n" : "\n");
        if (flag(o, "nonl", false) && !s.empty()) s.pop_back();
        spit(S("file"), s);
    } else if (op == "text_read") {
        std::string fmt = S("fmt"), how = S("how"), ty = S("type");
        e["got"] = json::array();
        unsigned lc = 0;
        FILE *f = how == "istream" ? nullptr : fopen(S("file").c_str(), "rb");
        std::ifstream is;
        if (!f) is.open(S("file"));
        try {
            for (int k = 0; k < 20; ++k) {
                if (f ? feof(f) : is.eof()) HFST_THROW(EndOfStreamException);
                if (fmt == "att") {
                    if (how == "FILE") { HfstTransducer t(f, typ(ty), S("eps"), lc, false); e["got"].push_back(dump(t)); }
                    else if (how == "old") { HfstTransducer t(f, typ(ty), S("eps"), false); e["got"].push_back(dump(t)); }
                    else {
                        HfstBasicTransducer b = f ? HfstBasicTransducer::read_in_att_format(f, S("eps"), lc, false) : HfstBasicTransducer::read_in_att_format(is, S("eps"), lc, false);
                        HfstTransducer t(b, typ(ty));
                        e["got"].push_back(dump(t));
                    }
                } else {
                    HfstBasicTransducer b = f ? HfstBasicTransducer::read_in_prolog_format(f, lc) : HfstBasicTransducer::read_in_prolog_format(is, lc);
                    HfstTransducer t(b, typ(ty));
                    e["got"].push_back(dump(t));
                }
            }
            e["end"] = "none";
        } catch (const HfstException &x) { e["end"] = x.name.substr(0, x.name.find(":")); }
        if (f) fclose(f);
    } else return false;
    return true;
}
