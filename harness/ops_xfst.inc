// ---------------------------------------------------------------- the xfst shell
static json stack_of(Env &E)
{
    json out = json::array();
    std::stack<HfstTransducer *> s = E.xf->get_stack();
    while (!s.empty()) { out.insert(out.begin(), dump(*s.top())); s.pop(); }
    return out;
}
static json lines_of(const std::string &s)
{
    json out = json::array();
    std::istringstream in(s);
    std::string l;
    while (std::getline(in, l)) out.push_back(l);
    return out;
}
static bool exec_xfst(Env &E, const json &o, json &e, const std::string &op)
{
    if (op == "xf_new") {
        E.xf.reset(new xfst::XfstCompiler(E.type));
        E.xf->setVerbosity(false); E.xf->setPromptVerbosity(false);
    }
    else if (op == "xf_file") {
        std::ofstream h(scratch + "/" + o["name"].get<std::string>(), std::ios::binary);
        h << o["text"].get<std::string>();
    }
    else if (op == "xf" || op == "xf_bad") {
        if (flag(o, "acyclic", false) && !E.xf->get_stack().empty() && E.xf->get_stack().top()->is_cyclic()) { e["op"] = "xf_skip"; return true; }
        std::ostringstream out, err;
        std::string so, se;
        E.xf->set_output_stream(out); E.xf->set_error_stream(err);
        e["rv"] = 0;
        captured([&] { e["rv"] = E.xf->parse_line(o["line"].get<std::string>()) == 0 ? 0 : 1; }, so, se);
        E.xf->set_output_stream(std::cout); E.xf->set_error_stream(std::cerr);
        e["out"] = lines_of(out.str() + so);
        e["err"] = (err.str() + se).empty() ? 0 : 1;
        e["stk"] = stack_of(E);
    } else return false;
    return true;
}
