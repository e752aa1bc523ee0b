// ---------------------------------------------------------------- lexicons
static std::ostringstream g_lexc_err;
static bool exec_lexc(Env &E, const json &o, json &e, const std::string &op)
{
    if (op == "lexc_new") {
        E.lx.reset(new lexc::LexcCompiler(E.type, o["flags"].get<int>(), o["align"].get<int>()));
        E.lx->setVerbosity(0); E.lx->set_error_stream(&g_lexc_err);
    }
    else if (op == "lexc_reset") E.lx->reset();
    else if (op == "lexc_parse" || op == "lexc_bad") {
        std::string f = scratch + "/lexc", so, se;
        captured([&] {
        { std::ofstream h(f); h << o["text"].get<std::string>(); }
        if (o["how"].get<int>()) { FILE *h = fopen(f.c_str(), "rb"); E.lx->parse(h); fclose(h); }
        else E.lx->parse(f.c_str());
        }, so, se);
    }
    else if (op == "lexc_compile") {
        HfstTransducer *t = E.lx->compileLexical();
        e["ans"] = t ? 1 : 0;
        if (t) { e["res"] = dump(*t); delete t; }
    } else return false;
    return true;
}
