// The operations.  exec(E, o, e): perform operation o on environment E, add observations to event e.
static void binary(Env &E, const json &o, json &e, const std::string &op)
{
    HfstTransducer &t = E.r(o);
    HfstTransducer &a = E.r(o, "a");
    bool h = flag(o, "harm", true);
    if (op == "concatenate") t.concatenate(a, h);
    else if (op == "disjunct") t.disjunct(a, h);
    else if (op == "intersect") t.intersect(a, h);
    else if (op == "subtract") t.subtract(a, h);
    else if (op == "compose") t.compose(a, h);
    else if (op == "priority_union") t.priority_union(a);
    else if (op == "lenient_composition") t.lenient_composition(a, h);
    else if (op == "cross_product") t.cross_product(a, h);
    else if (op == "shuffle") t.shuffle(a, h);
    else throw std::runtime_error("bad binary " + op);
}
static bool unary(Env &E, const json &o, const std::string &op)
{
    HfstTransducer &t = E.r(o);
    if (op == "repeat_star") t.repeat_star();
    else if (op == "repeat_plus") t.repeat_plus();
    else if (op == "repeat_n") t.repeat_n(o["k"].get<int>());
    else if (op == "repeat_n_minus") t.repeat_n_minus(o["k"].get<int>());
    else if (op == "repeat_n_plus") t.repeat_n_plus(o["k"].get<int>());
    else if (op == "repeat_n_to_k") t.repeat_n_to_k(o["k"].get<int>(), o["k2"].get<int>());
    else if (op == "optionalize") t.optionalize();
    else if (op == "invert") t.invert();
    else if (op == "reverse") t.reverse();
    else if (op == "input_project") t.input_project();
    else if (op == "output_project") t.output_project();
    else if (op == "negate") t.negate();
    else if (op == "determinize") t.determinize();
    else if (op == "minimize") t.minimize();
    else if (op == "optimize") t.optimize();
    else if (op == "remove_epsilons") t.remove_epsilons();
    else if (op == "prune") t.prune();
    else if (op == "prune_alphabet") t.prune_alphabet(flag(o, "force", true));
    else if (op == "eliminate_flags") t.eliminate_flags();
    else if (op == "eliminate_flag") t.eliminate_flag(o["flag"].get<std::string>());
    else if (op == "twosided_flag_diacritics") t.twosided_flag_diacritics();
    else if (op == "n_best") t.n_best(o["k"].get<int>());
    else if (op == "push_weights") t.push_weights(o["dir"] == "initial" ? TO_INITIAL_STATE : TO_FINAL_STATE);
    else if (op == "push_labels") t.push_labels(o["dir"] == "initial" ? TO_INITIAL_STATE : TO_FINAL_STATE);
    else if (op == "set_final_weights") t.set_final_weights(o["w"].get<int>() / 4.0f, flag(o, "inc", false));
    else if (op == "transform_weights") {
        std::string f = o["fn"];
        t.transform_weights(f == "double" ? &fn_double : f == "plus" ? &fn_plus : &fn_zero);
    }
    else if (op == "convert") t.convert(typ(o["to"]), o.contains("opt") ? o["opt"].get<std::string>() : "");
    else if (op == "substitute_symbol") t.substitute(in(o["old"]), in(o["new"]), flag(o, "i", true), flag(o, "o", true));
    else if (op == "substitute_pair") t.substitute(sp(o["old"]), sp(o["new"]));
    else if (op == "substitute_pair_set") t.substitute(sp(o["old"]), sps(o["new"]));
    else if (op == "substitute_symbols") {
        HfstSymbolSubstitutions m;
        for (auto &x : o["map"]) m[in(x[0])] = in(x[1]);
        t.substitute(m);
    }
    else if (op == "substitute_pairs") {
        HfstSymbolPairSubstitutions m;
        for (auto &x : o["map"]) m[sp(x[0])] = sp(x[1]);
        t.substitute(m);
    }
    else if (op == "substitute_func") t.substitute(&subst_fn);
    else if (op == "insert_freely") t.insert_freely(sp(o["pair"]), flag(o, "harm", true));
    else if (op == "insert_to_alphabet") t.insert_to_alphabet(in(o["sym"]));
    else if (op == "remove_from_alphabet") t.remove_from_alphabet(in(o["sym"]));
    else if (op == "set_name") t.set_name(o["name"].get<std::string>());
    else if (op == "set_property") t.set_property(o["key"].get<std::string>(), o["value"].get<std::string>());
    else return false;
    return true;
}

static void exec(Env &E, const json &o, json &e);

#include "ops_more.inc"

static void exec(Env &E, const json &o, json &e)
{
    std::string op = o["op"];
    static const std::set<std::string> bin = {"concatenate", "disjunct", "intersect", "subtract", "compose",
        "priority_union", "lenient_composition", "cross_product", "shuffle"};
    if (op == "load") {
        HfstBasicTransducer b = load_basic(o["fst"]);
        ImplementationType t = o.contains("type") ? typ(o["type"]) : E.type;
        E.R[o["r"].get<int>()] = std::unique_ptr<HfstTransducer>(new HfstTransducer(b, t));
        e["res"] = dump(E.r(o));
        return;
    }
    if (op == "copy") { E.R[o["r"].get<int>()] = std::unique_ptr<HfstTransducer>(new HfstTransducer(E.r(o, "a"))); }
    else if (op == "assign") { E.r(o) = E.r(o, "a"); }
    else if (bin.count(op)) {
        try { binary(E, o, e, op); }
        catch (...) {
            try { e["res"] = dump(E.r(o)); e["arg"] = dump(E.r(o, "a")); } catch (...) {}
            throw;
        }
        e["res"] = dump(E.r(o));
        e["arg"] = dump(E.r(o, "a"));
        e["rtype"] = typ_name(E.r(o).get_type());
        return;
    }
    else if (op == "compose_intersect") {
        HfstTransducerVector v;
        for (auto &x : o["rules"]) v.push_back(*E.R.at(x.get<int>()));
        E.r(o).compose_intersect(v, flag(o, "inv", false), flag(o, "harm", true));
    }
    else if (op == "substitute_transducer") {
        HfstTransducer &a = E.r(o, "a");
        E.r(o).substitute(sp(o["old"]), a, flag(o, "harm", true));
        e["arg"] = dump(a);
    }
    else if (op == "insert_freely_tr") {
        E.r(o).insert_freely(E.r(o, "a"), flag(o, "harm", true));
        e["arg"] = dump(E.r(o, "a"));
    }
    else if (op == "compare") { e["ans"] = E.r(o).compare(E.r(o, "a")) ? 1 : 0; return; }
    else if (op == "query") {
        HfstTransducer &t = E.r(o);
        e["res"] = dump(t);
        e["cyclic"] = t.is_cyclic() ? 1 : 0;
        e["automaton"] = t.is_automaton() ? 1 : 0;
        e["states"] = t.number_of_states();
        e["arcs"] = t.number_of_arcs();
        e["infamb"] = t.get_type() == LOG_OPENFST_TYPE ? -1 : t.is_infinitely_ambiguous() ? 1 : 0;
        e["hasw"] = t.has_weights() ? 1 : 0;
        e["alpha"] = strlist(t.get_alphabet());
        e["rtype"] = typ_name(t.get_type());
        return;
    }
    else if (op == "dump") { e["res"] = dump(E.r(o)); e["rtype"] = typ_name(E.r(o).get_type()); return; }
    else if (exec_more(E, o, e, op)) return;
    else if (!unary(E, o, op)) throw std::runtime_error("bad op " + op);
    e["res"] = dump(E.r(o));
    e["rtype"] = typ_name(E.r(o).get_type());
}
