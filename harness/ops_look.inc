// ---------------------------------------------------------------- paths, flags, lookup
static bool exec_look(Env &E, const json &o, json &e, const std::string &op)
{
    if (op == "x_paths") {
        HfstTransducer &t = E.r(o);
        HfstTwoLevelPaths ps;
        int mx = o["max"].get<int>(), cy = o["cycles"].get<int>();
        if (flag(o, "fd", false)) t.extract_paths_fd(ps, mx, cy, flag(o, "filter", true));
        else t.extract_paths(ps, mx, cy);
        e["ans"] = two_level(ps);
    } else if (op == "x_random") {
        HfstTransducer &t = E.r(o);
        HfstTwoLevelPaths ps;
        if (flag(o, "fd", false)) t.extract_random_paths_fd(ps, o["max"].get<int>(), flag(o, "filter", true));
        else t.extract_random_paths(ps, o["max"].get<int>());
        e["ans"] = two_level(ps);
    } else if (op == "x_shortest") {
        HfstTwoLevelPaths ps;
        E.r(o).extract_shortest_paths(ps);
        e["ans"] = two_level(ps);
    } else if (op == "x_longest") {
        HfstTwoLevelPaths ps;
        e["ret"] = E.r(o).extract_longest_paths(ps, flag(o, "obey", true)) ? 1 : 0;
        e["ans"] = two_level(ps);
    } else if (op == "x_longest_size") e["ans"] = E.r(o).longest_path_size(flag(o, "obey", true));
    else if (op == "has_flags") e["ans"] = E.r(o).has_flag_diacritics() ? 1 : 0;
    else if (op == "flag_binary") {
        HfstTransducer &t = E.r(o);
        HfstTransducer a(*E.R.at(o["a"].get<int>()));
        std::string how = o["how"].get<std::string>();
        t.harmonize_flag_diacritics(a, how != "concatenate");
        e["harg"] = dump(a);
        e["hres"] = dump(t);
        if (how == "compose") t.compose(a);
        else if (how == "intersect") t.intersect(a);
        else if (how == "concatenate") t.concatenate(a);
    } else if (op == "to_ol") {
        E.r(o).convert(typ(o["to"]), o.contains("opts") ? o["opts"].get<std::string>() : "");
        e["rtype"] = typ_name(E.r(o).get_type());
        return true;
    } else if (op == "reload") {
        std::string fn = "reload." + std::to_string(getpid());
        { HfstOutputStream os(fn, E.r(o).get_type()); os << E.r(o); os.close(); }
        {
            HfstInputStream is(fn);
            HfstTransducer *t = new HfstTransducer(is);
            is.close();
            E.R[o["r"].get<int>()].reset(t);
        }
        unlink(fn.c_str());
        e["rtype"] = typ_name(E.r(o).get_type());
        return true;
    } else if (op == "ol_back") {
        e["res"] = dump(E.r(o));
        return true;
    } else if (op == "ol_lookup") {
        HfstTransducer &t = E.r(o);
        long lim = o["limit"].get<long>();
        HfstOneLevelPaths *p;
        if (o.contains("word")) {
            StringVector v = svec(o["word"]);
            p = flag(o, "plain", false) ? t.lookup(v, lim) : t.lookup_fd(v, lim);
        } else {
            std::string s = o["str"].get<std::string>();
            p = flag(o, "plain", false) ? t.lookup(s, lim) : t.lookup_fd(s, lim);
        }
        e["ans"] = one_level(*p);
        delete p;
        return true;
    } else if (op == "ol_pairs") {
        HfstTwoLevelPaths *p = E.r(o).lookup_pairs(o["str"].get<std::string>(), o["limit"].get<long>());
        e["ans"] = two_level(*p);
        delete p;
        return true;
    } else if (op == "ol_inf") {
        e["ans"] = (o.contains("word") ? E.r(o).is_lookup_infinitely_ambiguous(svec(o["word"])) : E.r(o).is_lookup_infinitely_ambiguous(o["str"].get<std::string>())) ? 1 : 0;
        return true;
    } else return false;
    e["res"] = dump(E.r(o));
    return true;
}
