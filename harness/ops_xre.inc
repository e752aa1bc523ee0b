// ---------------------------------------------------------------- regular expressions
static bool exec_xre(Env &E, const json &o, json &e, const std::string &op)
{
    auto S = [&](const char *k) { return o[k].get<std::string>(); };
    if (op == "xre_new") { E.xr.reset(new xre::XreCompiler(E.type)); E.xr->set_verbosity(false); E.xr->set_expand_definitions(true); }
    else if (op == "xre_def") e["ans"] = E.xr->define(S("name"), S("text")) ? 1 : 0;
    else if (op == "xre_undef") E.xr->undefine(S("name"));
    else if (op == "xre_fun") e["ans"] = E.xr->define_function(S("name"), o["arity"].get<int>(), S("text")) ? 1 : 0;
    else if (op == "xre" || op == "xre_bad" || op == "repl") {
        HfstTransducer *t = E.xr->compile(S("text"));
        e["ans"] = t ? 1 : 0;
        if (t) { e["res"] = dump(*t); if (o.contains("r")) E.R[o["r"].get<int>()].reset(t); else delete t; }
    } else return false;
    return true;
}
