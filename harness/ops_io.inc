// ---------------------------------------------------------------- streams and text formats
static std::map<int, std::unique_ptr<HfstOutputStream>> g_out;
static std::map<int, std::unique_ptr<HfstInputStream>> g_in;
static std::map<int, std::unique_ptr<std::ifstream>> g_ifs;

static json props_of(const HfstTransducer &t)
{
    json p = json::array();
    for (auto &x : t.get_properties())
        if (x.first != "type" && x.first != "version" && x.first != "minimal")      // set by the library itself
            p.push_back(json::array({x.first, x.second}));
    return p;
}
static bool exec_io(Env &E, const json &o, json &e, const std::string &op)
{
    auto S = [&](const char *k) { return o[k].get<std::string>(); };
    auto I = [&](const char *k) { return o[k].get<int>(); };
    if (op == "set_name") E.r(o).set_name(S("name"));
    else if (op == "set_prop") E.r(o).set_property(S("key"), S("val"));
    else if (op == "props") {
        e["ans"] = props_of(E.r(o));
        e["name"] = E.r(o).get_name();
        e["rtype"] = typ_name(E.r(o).get_type());
    } else if (op == "tconvert") {
        E.r(o).convert(typ(o["to"]));
        e["rtype"] = typ_name(E.r(o).get_type());
    } else if (op == "tcopy") {
        E.R[I("r")].reset(new HfstTransducer(*E.R.at(I("a"))));
    } else if (op == "tassign") {
        *E.R.at(I("r")) = *E.R.at(I("a"));
    } else if (op == "os_open") {
        g_out.erase(I("h"));
        std::unique_ptr<HfstOutputStream> p(new HfstOutputStream(S("file"), typ(o["type"]), flag(o, "hfst", true)));
        g_out[I("h")] = std::move(p);
    } else if (op == "os_put") {
        *g_out.at(I("h")) << E.r(o);
    } else if (op == "os_close") g_out.at(I("h"))->close();
    else if (op == "is_open") {
        g_in.erase(I("h"));
        g_ifs.erase(I("h"));
        if (flag(o, "istr", false)) {
            g_ifs[I("h")].reset(new std::ifstream(S("file"), std::ios::binary));
            std::unique_ptr<HfstInputStream> p(new HfstInputStream(*g_ifs[I("h")]));
            g_in[I("h")] = std::move(p);
        } else {
            std::unique_ptr<HfstInputStream> p(new HfstInputStream(S("file")));
            g_in[I("h")] = std::move(p);
        }
        e["rtype"] = typ_name(g_in[I("h")]->get_type());
        e["hdr"] = g_in[I("h")]->is_hfst_header_included() ? 1 : 0;
    } else if (op == "is_state") {
        e["eof"] = g_in.at(I("h"))->is_eof() ? 1 : 0;
        e["bad"] = g_in.at(I("h"))->is_bad() ? 1 : 0;
        e["good"] = g_in.at(I("h"))->is_good() ? 1 : 0;
    } else if (op == "is_get") {
        std::unique_ptr<HfstTransducer> t;
        try {
            t.reset(new HfstTransducer(*g_in.at(I("h"))));
        } catch (const EndOfStreamException &) { throw;
        } catch (const HfstException &) { g_in.erase(I("h")); throw; }
        e["props"] = props_of(*t);
        e["name"] = t->get_name();
        e["rtype"] = typ_name(t->get_type());
        e["res"] = dump(*t);
        E.R[I("r")] = std::move(t);
    } else if (op == "is_close") g_in.at(I("h"))->close();
    else if (op == "cat") {
        std::string s;
        for (auto &f : o["from"]) s += slurp(f.get<std::string>());
        spit(S("file"), s);
    } else if (op == "cut") {      // drop bytes at the end
        std::string s = slurp(S("file"));
        long keep = std::max(0l, (long)s.size() - o["drop"].get<long>());
        spit(S("file"), s.substr(0, keep));
        e["size"] = s.size();
        e["kept"] = keep;
    } else if (op == "spit") spit(S("file"), S("text"));
    else return false;
    if (o.contains("r") && op != "is_get" && op != "os_put") e["res"] = dump(E.r(o));
    return true;
}
