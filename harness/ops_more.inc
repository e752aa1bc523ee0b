// ---------------------------------------------------------------- HfstBasicTransducer as a state machine
static json arc_list(const hfst::implementations::HfstBasicTransitions &ts)
{
    json r = json::array();
    bool ix = false;
    for (auto &tr : ts)
        r.push_back({tr.get_target_state(), out(tr.get_input_symbol()), out(tr.get_output_symbol()), wq(tr.get_weight(), ix)});
    return r;
}
static HfstBasicTransition arc(const json &o)
{
    return HfstBasicTransition(o["d"].get<int>(), in(o["i"]), in(o["o"]), o["w"].get<int>() / 4.0f);
}
static StringPairVector spvec(const json &j)
{
    StringPairVector v;
    for (auto &x : j) v.push_back(sp(x));
    return v;
}
static bool exec_basic(Env &E, const json &o, json &e, const std::string &op)
{
    if (op.compare(0, 2, "b_") != 0) return false;
    int r = o["r"].get<int>();
    if (op == "b_new") { E.B[r] = std::unique_ptr<HfstBasicTransducer>(new HfstBasicTransducer()); e["res"] = dump_basic(E.b(o)); return true; }
    if (op == "b_load") { E.B[r] = std::unique_ptr<HfstBasicTransducer>(new HfstBasicTransducer(load_basic(o["fst"]))); e["res"] = dump_basic(E.b(o)); return true; }
    if (op == "b_copy") { E.B[r] = std::unique_ptr<HfstBasicTransducer>(new HfstBasicTransducer(E.b(o, "a"))); e["res"] = dump_basic(E.b(o)); return true; }
    if (op == "b_assign") { E.b(o) = E.b(o, "a"); e["res"] = dump_basic(E.b(o)); return true; }
    HfstBasicTransducer &b = E.b(o);
    struct Log { HfstBasicTransducer &b; json &e; ~Log() { e["res"] = dump_basic(b); } } log{b, e};
    bool ix = false;
    unsigned s = o.contains("s") ? o["s"].get<unsigned>() : 0;
    if (op == "b_add_state") e["ans"] = o.contains("s") ? b.add_state(s) : b.add_state();
    else if (op == "b_add_transition") b.add_transition(s, arc(o), flag(o, "flag", true));
    else if (op == "b_remove_transition") b.remove_transition(s, arc(o), flag(o, "flag", false));
    else if (op == "b_set_final") b.set_final_weight(s, o["w"].get<int>() / 4.0f);
    else if (op == "b_remove_final") b.remove_final_weight(s);
    else if (op == "b_is_final") e["ans"] = b.is_final_state(s) ? 1 : 0;
    else if (op == "b_get_final") e["ans"] = wq(b.get_final_weight(s), ix);
    else if (op == "b_transitions") e["ans"] = arc_list(b.transitions(s));
    else if (op == "b_index") e["ans"] = arc_list(b[s]);
    else if (op == "b_max_state") e["ans"] = b.get_max_state();
    else if (op == "b_states") { e["ans"] = json::array(); for (auto x : b.states()) e["ans"].push_back(x); }
    else if (op == "b_add_symbol") b.add_symbol_to_alphabet(in(o["sym"]));
    else if (op == "b_remove_symbol") b.remove_symbol_from_alphabet(in(o["sym"]));
    else if (op == "b_add_symbols") { StringSet ss; for (auto &x : o["syms"]) ss.insert(in(x)); b.add_symbols_to_alphabet(ss); }
    else if (op == "b_remove_symbols") { StringSet ss; for (auto &x : o["syms"]) ss.insert(in(x)); b.remove_symbols_from_alphabet(ss); }
    else if (op == "b_prune_alphabet") b.prune_alphabet(flag(o, "flag", true));
    else if (op == "b_alphabet") e["ans"] = strlist(b.get_alphabet());
    else if (op == "b_symbols_used") e["ans"] = strlist(b.symbols_used());
    else if (op == "b_inputs") e["ans"] = strlist(b.get_input_symbols());
    else if (op == "b_outputs") e["ans"] = strlist(b.get_output_symbols());
    else if (op == "b_flags") e["ans"] = strlist(b.get_flags());
    else if (op == "b_pairs") { e["ans"] = json::array(); for (auto &p : b.get_transition_pairs()) e["ans"].push_back({out(p.first), out(p.second)}); }
    else if (op == "b_sort_arcs") b.sort_arcs();
    else if (op == "b_disjunct") b.disjunct(spvec(o["path"]), o["w"].get<int>() / 4.0f);
    else if (op == "b_substitute_symbol") b.substitute(in(o["old"]), in(o["new"]), flag(o, "i", true), flag(o, "o", true));
    else if (op == "b_substitute_pair") b.substitute(sp(o["old"]), sp(o["new"]));
    else if (op == "b_substitute_pair_set") b.substitute(sp(o["old"]), sps(o["new"]));
    else if (op == "b_substitute_symbols") {
        HfstSymbolSubstitutions m;
        for (auto &x : o["map"]) m[in(x[0])] = in(x[1]);
        b.substitute(m);
    }
    else if (op == "b_substitute_pairs") {
        HfstSymbolPairSubstitutions m;
        for (auto &x : o["map"]) m[sp(x[0])] = sp(x[1]);
        b.substitute(m);
    }
    else if (op == "b_substitute_func") b.substitute(&subst_fn);
    else if (op == "b_substitute_graph") b.substitute(sp(o["old"]), E.b(o, "a"));
    else if (op == "b_substitute_map") {
        std::map<std::string, HfstBasicTransducer> m;
        for (auto &x : o["map"]) m[in(x[0])] = *E.B.at(x[1].get<int>());
        b.substitute(m, flag(o, "harm", false));
    }
    else if (op == "b_insert_freely") b.insert_freely(sp(o["pair"]), o["w"].get<int>() / 4.0f);
    else if (op == "b_insert_freely_set") b.insert_freely(sps(o["pairs"]), o["w"].get<int>() / 4.0f);
    else if (op == "b_insert_freely_graph") b.insert_freely(E.b(o, "a"));
    else if (op == "b_insert_transducer") b.insert_transducer(o["s"].get<int>(), o["s2"].get<int>(), E.b(o, "a"));
    else if (op == "b_remove_transitions") b.remove_transitions(sp(o["pair"]));
    else if (op == "b_complete") b.complete();
    else if (op == "b_flag_purge") b.flag_purge(o["flag"].get<std::string>());
    else if (op == "b_longest") e["ans"] = b.longest_path_size();
    else if (op == "b_path_sizes") { e["ans"] = json::array(); for (auto x : b.path_sizes()) e["ans"].push_back(x); }
    else if (op == "b_topsort") {
        e["ans"] = json::array();
        for (auto &x : b.topsort(HfstBasicTransducer::MaximumDistance)) {
            json l = json::array();
            for (auto y : x) l.push_back(y);
            e["ans"].push_back(l);
        }
    }
    else if (op == "b_harmonize") { b.harmonize(E.b(o, "a")); e["arg"] = dump_basic(E.b(o, "a")); }
    else if (op == "b_intersect") {
        HfstBasicTransducer x = HfstBasicTransducer::intersect(b, E.b(o, "a"));
        e["out"] = dump_basic(x);
        e["arg"] = dump_basic(E.b(o, "a"));
    }
    else if (op == "b_inf_amb") e["ans"] = b.is_infinitely_ambiguous() ? 1 : 0;
    else if (op == "b_lookup_inf_amb") e["ans"] = b.is_lookup_infinitely_ambiguous(svec(o["word"]), flag(o, "flags", false)) ? 1 : 0;
    else if (op == "b_neg_cycles") e["ans"] = b.has_negative_epsilon_cycles() ? 1 : 0;
    else if (op == "b_lookup") {
        HfstTwoLevelPaths res;
        size_t mx = o.contains("cycles") ? o["cycles"].get<int>() : 0;
        float mw = o.contains("maxw") ? o["maxw"].get<int>() / 4.0f : 0;
        b.lookup(svec(o["word"]), res, o.contains("cycles") ? &mx : NULL, o.contains("maxw") ? &mw : NULL, o.contains("max") ? o["max"].get<int>() : -1,
                 flag(o, "flags", false));
        e["ans"] = two_level(res);
    }
    else if (op == "b_weights_markers") b.substitute_weights_with_markers();
    else if (op == "b_markers_weights") b.substitute_markers_with_weights();
    else throw std::runtime_error("bad op " + op);
    return true;
}

#include "ops_look.inc"
#include "ops_io.inc"
#include "ops_text.inc"
#include "ops_tok.inc"
#include "ops_xre.inc"
#include "ops_lexc.inc"
#include "ops_xfst.inc"

static bool exec_more(Env &E, const json &o, json &e, const std::string &op)
{
    return exec_basic(E, o, e, op) || exec_look(E, o, e, op) || exec_io(E, o, e, op) || exec_text(E, o, e, op) || exec_tok(E, o, e, op) || exec_xre(E, o, e, op) || exec_lexc(E, o, e, op) || exec_xfst(E, o, e, op);
}
