#include "smt.hpp"
#include "Smt2_parser.h"
#include <iostream>

namespace sim {

yaga::Options read_options(Case const& c)
{
    yaga::Options o;
    o.prop_rational = c.get("prop_rational");
    o.deduce_bounds = c.get("prop_bounds");
    o.print_stats = c.get("stats");
    switch (c.get("phase"))
    {
    case 1: o.phase = yaga::Phase::negative; break;
    case 2: o.phase = yaga::Phase::cache; break;
    default: o.phase = yaga::Phase::positive;
    }
    return o;
}

Run_out run_script(std::istream& in, yaga::Options const& o, Session* session)
{
    Run_out r;
    std::ostringstream out, cout_text;
    auto* old_hooks = yaga::sim::hooks;
    auto* old_cout = std::cout.rdbuf(cout_text.rdbuf());
    yaga::sim::hooks = session;
    try
    {
        yaga::parser::Smt2_parser parser;
        parser.set_options(o);
        parser.parse(in, out);
    }
    catch (Abandon&) { r.abandoned = true; }
    catch (Limit&) { r.limited = true; }
    catch (std::exception& e)
    {
        r.error = e.what();
        if (r.error.empty()) r.error = "exception";
    }
    yaga::sim::hooks = old_hooks;
    std::cout.rdbuf(old_cout);
    r.out = out.str();
    r.stats = cout_text.str();
    return r;
}

Run_out run_script(std::string const& text, yaga::Options const& o, Session* session)
{
    std::istringstream in(text);
    return run_script(in, o, session);
}

std::vector<Answer> read_answers(std::string const& out)
{
    std::vector<Answer> r;
    SReader rd(out);
    while (!rd.done())
    {
        Answer a;
        size_t b = rd.i;
        try
        {
            SExp e = rd.read();
            a.text = out.substr(b, rd.i - b);
            if (e.atom) a.kind = e.s == "sat" ? Answer::SAT : e.s == "unsat" ? Answer::UNSAT : e.s == "unknown" ? Answer::UNKNOWN : Answer::JUNK;
            else if (!e.kids.empty() && e.kids[0].atom && e.kids[0].s == "error") a.kind = Answer::ERROR;
            else a.kind = Answer::MODEL;
            a.exp = std::move(e);
        }
        catch (std::exception&)
        {
            a.kind = Answer::JUNK;
            a.text = out.substr(b);
            r.push_back(a);
            return r;
        }
        r.push_back(a);
    }
    return r;
}

std::vector<int> truths(Script const& s, uint64_t limit)
{
    std::vector<int> t;
    Encoder e;
    e.ref.work_limit = limit;
    bool dead = false;
    for (auto& c : s.cmds)
    {
        if (c.kind == C_EXIT) break;
        try
        {
            if (c.kind == C_DECL) e.declare(c.fun);
            if (c.kind == C_DEFINE) e.define(c.fun);
            if (c.kind == C_ASSERT && !dead) e.assert_term(c.term);
            if (c.kind == C_CHECK) t.push_back(dead ? -1 : e.ref.solve() ? 1 : 0);
        }
        catch (RefLimit&)
        {
            dead = true;
            if (c.kind == C_CHECK) t.push_back(-1);
        }
    }
    return t;
}

std::string judge_model(Script const& s, size_t check, SExp const& model)
{
    Evaluator ev;
    Symbols sy;
    // what the script declares
    size_t seen = 0;
    std::vector<P> asserted;
    std::map<std::string, Fun> declared;
    for (auto& c : s.cmds)
    {
        if (c.kind == C_DECL) declared[c.fun.name] = c.fun;
        if (c.kind == C_DEFINE) ev.funs[c.fun.name] = c.fun;
        if (c.kind == C_ASSERT) asserted.push_back(c.term);
        if (c.kind == C_CHECK && seen++ == check) break;
    }
    std::set<std::string> given;
    try
    {
        for (auto& d : model.kids)
        {
            if (d.atom || d.kids.size() != 5 || d.kids[0].s != "define-fun") return "the model has an entry that is no definition";
            Fun f;
            f.name = unquote(d.kids[1].s);
            f.defined = true;
            auto it = declared.find(f.name);
            if (it == declared.end()) return "the model defines '" + f.name + "', which is not declared";
            if (!given.insert(f.name).second) return "the model defines '" + f.name + "' twice";
            sy.locals.clear();
            for (auto& p : d.kids[2].kids)
            {
                if (p.kids.size() != 2) return "the model has a malformed parameter list for " + f.name;
                f.params.push_back(unquote(p.kids[0].s));
                f.args.push_back(to_sort(p.kids[1]));
                sy.locals.emplace_back(f.params.back(), f.args.back());
            }
            f.ret = to_sort(d.kids[3]);
            if (f.ret != it->second.ret || f.args != it->second.args) return "the model gives '" + f.name + "' another sort than declared";
            f.body = to_term(d.kids[4], sy);
            if (f.body->sort != f.ret) return "the value of '" + f.name + "' does not have its sort";
            if (f.params.empty()) ev.vars[f.name] = ev.eval(f.body);
            else ev.funs[f.name] = f;
        }
        // what is left out is free to be anything: nothing may depend on it
        std::vector<std::string> out;
        for (auto& [n, f] : declared)
            if (!given.count(n)) out.push_back(n);
        for (int way = 0; way < (out.empty() ? 1 : 4); ++way)
        {
            int i = 0;
            for (auto& n : out)
            {
                auto& f = declared[n];
                bool b = way == 0 ? false : way == 1 ? true : ((i >> (way - 2)) & 1) != 0;
                mpq_class q = way == 0 ? mpq_class(0) : way == 1 ? mpq_class(1) : mpq_class((way == 2 ? 7 : -29) * (i + 1)) / 3;
                ++i;
                if (f.args.empty()) ev.vars[n] = f.ret == BOOL ? Val::B(b) : Val::Q(q);
                else
                {
                    Fun g = f;
                    g.params.clear();
                    for (size_t j = 0; j < f.args.size(); ++j) g.params.push_back("p" + std::to_string(j));
                    g.body = f.ret == BOOL ? (b ? mk_true() : mk_false()) : mk_num(q);
                    ev.funs[n] = g;
                }
            }
            for (auto& t : asserted)
                if (!ev.eval(t).b)
                    return "the model falsifies (assert " + sim::str(t) + ")" + (way ? " for some values of what it leaves out" : "");
        }
    }
    catch (std::exception& e) { return std::string("the model cannot be evaluated: ") + e.what(); }
    return "";
}

void judge_script(Script const& s, Run_out const& o, std::vector<int> const& truth, Result& r, bool verdicts, bool models)
{
    if (o.abandoned || o.limited) return;
    if (!o.error.empty()) { r.fail("error", "a valid script ends with the error: " + o.error); return; }
    auto as = read_answers(o.out);
    size_t ai = 0, check = 0;
    int last = -2;
    for (auto& c : s.cmds)
    {
        if (c.kind == C_CHECK)
        {
            if (ai >= as.size()) { r.fail("answer-missing", "check-sat number " + std::to_string(check + 1) + " is not answered"); return; }
            auto& a = as[ai++];
            if (a.kind != Answer::SAT && a.kind != Answer::UNSAT) { r.fail("answer-junk", "check-sat is answered by: " + a.text); return; }
            last = a.kind == Answer::SAT;
            int t = check < truth.size() ? truth[check] : -1;
            if (t < 0) ++r.st["truth_unknown"];
            else
            {
                ++r.st[t ? "checks_sat" : "checks_unsat"];
                if (verdicts && t != last)
                    r.fail(last ? "wrong-sat" : "wrong-unsat", "check-sat number " + std::to_string(check + 1) + " is answered " + (last ? "sat" : "unsat") +
                        " but the assertions are " + (t ? "satisfiable" : "unsatisfiable"));
            }
            ++check;
        }
        if (c.kind == C_MODEL)
        {
            if (ai >= as.size()) { r.fail("model-missing", "get-model is not answered"); return; }
            auto& a = as[ai++];
            if (last == 1)
            {
                if (a.kind != Answer::MODEL) { r.fail("model-junk", "get-model is answered by: " + a.text.substr(0, 200)); return; }
                ++r.st["models"];
                if (models)
                {
                    std::string w = judge_model(s, check - 1, a.exp);
                    if (!w.empty()) r.fail("bad-model", w);
                }
            }
            else if (a.kind != Answer::ERROR) { r.fail("model-junk", "get-model after unsat is answered by: " + a.text.substr(0, 200)); return; }
        }
        if (c.kind == C_EXIT) break;
    }
    if (ai != as.size()) r.fail("answer-extra", "there is output nobody asked for: " + as[ai].text.substr(0, 200));
}

void finish_session(Session& s, Result& r, Logs& logs)
{
    auto& st = r.st;
    for (int k = 0; k < K_NUM; ++k)
        if (s.sched.counts[k]) st[std::string("fault.") + kind_names[k]] += s.sched.counts[k];
    st["decisions"] += s.decisions;
    st["conflicts"] += s.conflicts;
    st["restarts"] += s.restarts;
    st["state_checks"] += s.state_checks;
    st["bound_checks"] += s.bound_checks;
    st["knowledge_checks"] += s.know_checks;
    st["facts_checked"] += s.facts.checks;
    if (s.limited) ++st["runs_cut_off"];
    uint64_t h = r.hash;
    r.hash = mix(h, s.events.h);
    r.shape = mix(r.shape, s.shape.h);
    if (s.conflicts > 0) r.nontrivial = true;
    logs.push_back(s.sched.log);
}

void random_plug(Case& c, Rng& r)
{
    static int const levels[] = {0, 0, 30, 120, 400, 1000};
    auto lv = [&] { return static_cast<long>(levels[r.below(6)]); };
    int k = r.below(10);
    c.cfg["intrude"] = k >= 2;
    if (k >= 3)
    {
        c.cfg["p_var"] = lv();
        c.cfg["p_value"] = lv();
        c.cfg["p_phase"] = lv();
        c.cfg["p_restart"] = lv();
        c.cfg["p_split"] = lv();
        c.cfg["order"] = r.chance(1, 6);
    }
    else if (r.chance(1, 2)) c.cfg["p_value"] = lv();
    c.cfg["hostile"] = r.chance(1, 4) ? 30 + r.below(100) : 250;
}

void random_options(Case& c, Rng& r)
{
    c.cfg["prop_rational"] = r.chance(1, 3);
    c.cfg["prop_bounds"] = r.chance(1, 3);
    c.cfg["phase"] = r.below(3);
    c.cfg["all_conflicts"] = !r.chance(1, 6);
    c.cfg["prop_unassigned"] = r.chance(1, 8);
}

} // namespace sim
