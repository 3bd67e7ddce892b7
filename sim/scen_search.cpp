// Scenarios that run whole searches under hostile schedules: C01-C06, C08, C09, C11, C17.
#include "scen.hpp"

namespace sim {

static void prepare(Case& c, Rng& r)
{
    random_plug(c, r);
    random_options(c, r);
    c.cfg["step_limit"] = 3000;
}

// ------------------------------------------------------------------ scripts

static void add_checks(Script& s, bool model)
{
    Gen::add(s, C_CHECK);
    if (model) Gen::add(s, C_MODEL);
}

Case make_search(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.scen = "script";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e));
    prepare(c, r);
    bool uf = prop == "C03" || ((prop == "C04" || prop == "C24" || prop == "C05" || prop == "C06" || prop == "C08" || prop == "C09") && r.chance(1, 3)) ||
        (prop == "C17" && r.chance(1, 4)) || (prop == "C11" && r.chance(1, 4));
    c.cfg["uf"] = uf;
    int scale = thorough ? r.below(2) : (prop == "C02" || prop == "C03" ? r.chance(1, 5) : r.chance(1, 3));
    if (prop == "C11") scale = 1;
    if (prop == "C09" && !thorough) scale = r.chance(1, 8);
    Rng g(mix(seed, 0x9e4));
    bool bool_uf = uf && mix(seed, 0xb001) % 3 == 0;
    // every few runs a long search; where no verdict has to be computed it may be longer
    uint64_t busy = mix(seed, 0xb5);
    bool free = prop == "C06" || prop == "C07" || prop == "C24";
    bool long_search = !uf && prop != "C11" && prop != "C09" && busy % 12 < (prop == "C07" ? 8u : free || prop == "C05" || prop == "C08" ? 4u : 2u);
    Script s = long_search ? gen_busy(g, free ? (busy >> 20) % (thorough ? 3 : 2) : 0) : gen_smt(g, uf, scale, bool_uf, prop == "C09");
    if (prop == "C17" || (prop == "C24" && r.chance(1, 3)))
    {
        // spread the assertions over several checks
        Script t;
        for (auto& cmd : s.cmds)
        {
            t.cmds.push_back(cmd);
            if (cmd.kind == C_ASSERT && r.chance(1, 4))
            {
                Gen::add(t, C_CHECK);
                if (r.chance(1, 2)) Gen::add(t, C_MODEL);
                if (r.chance(1, 5)) Gen::add(t, C_CHECK);
            }
        }
        add_checks(t, true);
        s = t;
        c.cfg["step_limit"] = 6000;
    }
    else add_checks(s, true);
    if (prop == "C09")
    {
        // adverse prefix of random length, adverse in every respect, then undisturbed
        c.cfg["intrude"] = 1;
        static int const lv[] = {0, 200, 1000, 1000};
        for (auto k : {"p_var", "p_value", "p_phase", "p_restart", "p_split"}) c.cfg[k] = lv[r.below(4)];
        c.cfg["hostile"] = 1 + r.below(200);
        c.cfg["order"] = 0;
        c.cfg["step_limit"] = c.cfg["hostile"] + 400000;
    }
    c.text["script"] = s.text();
    if (prop == "C05") c.cfg["inv"] = I_FACTS;
    if (prop == "C06") c.cfg["inv"] = I_STATE;
    if (prop == "C08") c.cfg["inv"] = I_KNOW;
    if (prop == "C12") c.cfg["inv"] = I_BOUNDS;
    if (prop == "C07") c.cfg["inv"] = I_COMPLETE;
    if (prop == "C24")
    {
        c.cfg["inv"] = I_OPTIONS;
        c.cfg["intrude"] = 1;
        c.cfg["stats"] = 1;
        c.cfg["phase"] = r.chance(1, 2) ? 2 : r.below(3);
        static int const lv[] = {0, 0, 0, 30, 200};
        c.cfg["p_phase"] = lv[r.below(5)];
        c.cfg["p_value"] = lv[r.below(5)];
    }
    if (prop == "C05" || prop == "C06" || prop == "C07" || prop == "C08" || prop == "C12")
    {
        c.cfg["intrude"] = 1;
        c.cfg["limit_ref"] = prop == "C08";
        if (prop == "C08" && r.chance(1, 2)) c.cfg["p_restart"] = r.chance(1, 2) ? 1000 : 300;
        if (prop == "C07")
        {
            // the real heuristic must decide most of the time
            c.cfg["p_var"] = r.chance(1, 2) ? 0 : 100;
            if (r.chance(1, 2)) c.cfg["p_restart"] = r.chance(1, 3) ? 1000 : 200;
        }
    }
    return c;
}

// the printed counters against the events of each check
static void judge_counters(Session const& ses, Run_out const& out, Result& r)
{
    std::vector<std::map<std::string, long>> told;
    std::istringstream in(out.stats);
    std::string line;
    while (std::getline(in, line))
    {
        auto at = line.find(" = ");
        if (at == std::string::npos) continue;
        std::string name = line.substr(0, at);
        if (told.empty() || told.back().count(name)) told.emplace_back();
        told.back()[name] = atol(line.c_str() + at + 3);
    }
    std::vector<bool> sat;
    if (told.size() != ses.counters.size())
    {
        r.fail("counters-missing", "statistics are printed for " + std::to_string(told.size()) + " checks instead of " + std::to_string(ses.counters.size()));
        return;
    }
    for (size_t i = 0; i < told.size(); ++i)
    {
        auto& t = told[i];
        auto& c = ses.counters[i];
        ++r.st["counters_checked"];
        auto is = [&](char const* n, long lo, long up) {
            if (!t.count(n)) r.fail("counters-missing", std::string("no number of ") + n + " is printed");
            else if (t[n] < lo || t[n] > up)
                r.fail("counter", "check " + std::to_string(i + 1) + ": " + n + " = " + std::to_string(t[n]) + " is printed instead of " + std::to_string(lo) + (up != lo ? ".." + std::to_string(up) : ""));
        };
        is("Decisions", c.decisions, c.decisions);
        is("Restarts", c.restarts, c.restarts);
        is("Learned clauses", c.learned, c.learned);
        // the conflict that ends an unsatisfiable check leads nowhere
        is("Conflicts", c.backtracks, c.backtracks + 1);
        is("Conflict clauses", std::max(c.learned, c.backtracks), 1l << 40);
    }
}

void exec_search(Case const& c, Result& r, Logs& logs)
{
    Script s = parse_script(c.str("script"));
    auto o = read_options(c);
    Plug_cfg pc;
    pc.read_plug(c);
    pc.inv = c.get("inv");
    Session ses(pc, c.sched(0), r);
    Run_out out = run_script(c.str("script"), o, &ses);
    finish_session(ses, r, logs);
    Hash h;
    h.add(out.out);
    r.hash = mix(r.hash, h.h);
    bool any = false;
    for (auto& cmd : s.cmds) any |= cmd.kind == C_ASSERT;
    if (!any) r.nontrivial = false;
    r.sample = c.str("script");
    if (c.prop == "C24")
    {
        if (!out.error.empty()) r.fail("error", "a valid script ends with the error: " + out.error);
        if (!out.limited && !out.abandoned && out.error.empty()) judge_counters(ses, out, r);
        r.st["decisions_checked"] += ses.phase_checks;
        r.st["kept_values_checked"] += ses.kept_values;
        return;
    }
    if (c.prop == "C09")
    {
        r.st["max_calm_steps"] = std::max<long>(0, ses.steps - c.get("hostile"));
        if (out.limited)
            r.fail("no-progress", "no answer within " + std::to_string(c.get("step_limit") - c.get("hostile")) +
                " decisions, conflicts and restarts after the disturbances stopped");
        if (!out.error.empty()) r.fail("error", "a valid script ends with the error: " + out.error);
        return;
    }
    bool verdicts = c.prop != "C04" && c.prop != "C05" && c.prop != "C06" && c.prop != "C07" && c.prop != "C12";
    bool models = c.prop == "C04" || c.prop == "C17";
    std::vector<int> truth;
    if (verdicts || models) truth = truths(s, c.get("ref_limit", 2000000));
    judge_script(s, out, truth, r, verdicts, models);
}

// ------------------------------------------------------------------ clause sets

Case make_prop(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.scen = "clauses";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e));
    prepare(c, r);
    c.cfg["facade"] = r.chance(1, 3);
    Rng g(mix(seed, 0x9e4));
    Cnf f = gen_cnf(g, (thorough || prop != "C01") ? r.below(2) : r.chance(1, 4));
    c.text["cnf"] = f.dimacs();
    c.cfg["step_limit"] = 20000;
    if (prop == "C09")
    {
        c.cfg["intrude"] = 1;
        static int const lv[] = {0, 200, 1000, 1000};
        for (auto k : {"p_var", "p_phase", "p_restart"}) c.cfg[k] = lv[r.below(4)];
        c.cfg["hostile"] = 1 + r.below(200);
        c.cfg["order"] = 0;
        c.cfg["step_limit"] = c.cfg["hostile"] + 600000;
    }
    if (prop == "C05") c.cfg["inv"] = I_FACTS;
    if (prop == "C06") c.cfg["inv"] = I_STATE;
    if (prop == "C08") c.cfg["inv"] = I_KNOW;
    if (prop == "C07") c.cfg["inv"] = I_COMPLETE;
    if (prop == "C24")
    {
        c.cfg["inv"] = I_OPTIONS;
        c.cfg["phase"] = r.chance(1, 2) ? 2 : r.below(3);
    }
    if (c.cfg.count("inv"))
    {
        c.cfg["intrude"] = 1;
        if (prop == "C08" && r.chance(1, 2)) c.cfg["p_restart"] = r.chance(1, 2) ? 1000 : 300;
        if (prop == "C07")
        {
            c.cfg["p_var"] = r.chance(1, 2) ? 0 : 100;
            if (r.chance(1, 2)) c.cfg["p_restart"] = r.chance(1, 3) ? 1000 : 200;
        }
    }
    return c;
}

Cnf read_cnf(std::string const& text)
{
    Cnf f;
    std::istringstream in(text);
    std::string w;
    int n = 0;
    in >> w >> w >> f.vars >> n;
    std::vector<int> c;
    int l;
    while (in >> l)
    {
        if (l == 0) { f.clauses.push_back(c); c.clear(); }
        else { c.push_back(l); f.vars = std::max(f.vars, std::abs(l)); }
    }
    return f;
}

int cnf_truth(Cnf const& f, uint64_t limit)
{
    Ref ref;
    ref.work_limit = limit;
    std::vector<int> v;
    for (int i = 0; i < f.vars; ++i) v.push_back(ref.newBool() + 1);
    for (auto& c : f.clauses)
    {
        if (c.empty()) return 0;
        std::vector<Ref::Lit> k;
        for (int l : c) k.push_back(l > 0 ? v[l - 1] : -v[-l - 1]);
        ref.addClause(k);
    }
    try { return ref.solve() ? 1 : 0; }
    catch (RefLimit&) { return -1; }
}

namespace {
struct Direct { // a solver without the facade, set up as the SAT tool does it
    yaga::Solver solver;
    Direct(yaga::terms::Term_manager const& tm) : solver(tm) {}
};
}

int search_cnf(Case const& c, Cnf const& f, Session& ses, std::string& bad, std::string* assignment)
{
    yaga::terms::Term_manager tm;
    std::unordered_map<yaga::terms::term_t, int> reals;
    std::unordered_map<yaga::terms::term_t, Literal> bools;
    std::unique_ptr<yaga::Yaga> facade;
    std::unique_ptr<Direct> direct;
    yaga::Solver* solver;
    if (c.get("facade"))
    {
        yaga::sim::hooks = &ses;
        facade = std::make_unique<yaga::Yaga>(tm, std::ranges::ref_view(reals), std::ranges::ref_view(bools));
        facade->set_logic(yaga::logic::propositional, read_options(c));
        yaga::sim::hooks = nullptr;
        for (int i = 0; i < f.vars; ++i) facade->make(Variable::boolean);
        solver = &facade->solver();
    }
    else
    {
        direct = std::make_unique<Direct>(tm);
        solver = &direct->solver;
        auto& bt = solver->set_theory<yaga::Bool_theory>();
        bt.set_phase(read_options(c).phase);
        solver->set_variable_order<yaga::Evsids>();
        solver->set_restart_policy<yaga::Glucose_restart>();
        ses.attach(*solver);
        ses.phase_now = read_options(c).phase;
        ses.facts.reset(nullptr, nullptr);
        solver->trail().set_model<bool>(Variable::boolean, f.vars);
    }
    for (auto& cl : f.clauses)
    {
        Clause k;
        for (int l : cl) k.push_back(l > 0 ? Literal{l - 1} : ~Literal{-l - 1});
        solver->db().assert_clause(std::move(k));
    }
    auto res = solver->check();
    if ((ses.cfg.inv & I_OPTIONS) && !ses.counters.empty())
    {
        auto& k = ses.counters.back();
        bool unsat = res == yaga::Solver::Result::unsat;
        auto is = [&](char const* n, long got, long lo, long up) {
            if (got < lo || got > up) ses.violation("counter", std::string("the number of ") + n + " is " + std::to_string(got) + " instead of " + std::to_string(lo) + (lo != up ? ".." + std::to_string(up) : ""));
        };
        is("decisions", solver->num_decisions(), k.decisions, k.decisions);
        is("restarts", solver->num_restarts(), k.restarts, k.restarts);
        is("learned clauses", solver->num_learned_clauses(), k.learned, k.learned);
        is("conflicts", solver->num_conflicts(), k.backtracks, k.backtracks + unsat);
        is("conflict clauses", solver->num_conflict_clauses(), std::max(k.learned, k.backtracks), 1l << 40);
    }
    if (res == yaga::Solver::Result::unsat) return 0;
    auto& m = solver->trail().model<bool>(Variable::boolean);
    for (int i = 0; i < f.vars && bad.empty(); ++i)
        if (!m.is_defined(i)) bad = "variable " + std::to_string(i + 1) + " has no value";
    if (assignment)
        for (int i = 0; i < f.vars; ++i) *assignment += !m.is_defined(i) ? '?' : m.value(i) ? '1' : '0';
    for (auto& cl : f.clauses)
    {
        bool sat = false;
        for (int l : cl) sat |= m.is_defined(std::abs(l) - 1) && m.value(std::abs(l) - 1) == (l > 0);
        if (!sat && bad.empty()) bad = "the assignment falsifies an input clause";
    }
    return 1;
}

void exec_prop(Case const& c, Result& r, Logs& logs)
{
    Cnf f = read_cnf(c.str("cnf"));
    for (auto& k : f.clauses) if (k.empty()) return; // not a workload of this scenario
    Plug_cfg pc;
    pc.read_plug(c);
    pc.inv = c.get("inv");
    Session ses(pc, c.sched(0), r);
    std::string bad;
    int got = -1;
    bool limited = false;
    try { got = search_cnf(c, f, ses, bad); }
    catch (Abandon&) {}
    catch (Limit&) { limited = true; }
    catch (std::exception& e) { r.fail("error", std::string("the search ends with the error: ") + e.what()); }
    yaga::sim::hooks = nullptr;
    finish_session(ses, r, logs);
    r.hash = mix(r.hash, got + 2);
    r.sample = c.str("cnf");
    if (c.prop == "C09")
    {
        r.st["max_calm_steps"] = std::max<long>(0, ses.steps - c.get("hostile"));
        if (limited) r.fail("no-progress", "no answer within " + std::to_string(c.get("step_limit") - c.get("hostile")) + " steps after the disturbances stopped");
        return;
    }
    r.st["decisions_checked"] += ses.phase_checks;
    if (got < 0) return;
    if (c.prop == "C01" || c.prop == "C08")
    {
        int t = cnf_truth(f, c.get("ref_limit", 20000000));
        if (t < 0) ++r.st["truth_unknown"];
        else ++r.st[t ? "checks_sat" : "checks_unsat"];
        if (t >= 0 && t != got)
            r.fail(got ? "wrong-sat" : "wrong-unsat", std::string("the answer is ") + (got ? "sat" : "unsat") + " but the clauses are " + (t ? "satisfiable" : "unsatisfiable"));
        if (got == 1 && !bad.empty()) r.fail("bad-model", bad);
    }
}

// ------------------------------------------------------------------ C11: many schedules, one input

Case make_agree(uint64_t seed, bool thorough)
{
    Case c;
    c.prop = "C11";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e));
    Rng g(mix(seed, 0x9e4));
    c.cfg["runs"] = thorough ? 6 : 4;
    c.scen = "agree";
    bool cnf = r.chance(1, 4);
    c.cfg["cnf"] = cnf;
    if (cnf)
    {
        Cnf f;
        int n = 40 + g.below(thorough ? 120 : 70);
        f.vars = n;
        double ratio = 3.6 + g.below(120) / 100.0;
        for (int i = 0; i < static_cast<int>(n * ratio); ++i)
        {
            std::vector<int> k;
            while (k.size() < 3)
            {
                int v = 1 + g.below(n);
                if (std::find(k.begin(), k.end(), v) != k.end() || std::find(k.begin(), k.end(), -v) != k.end()) continue;
                k.push_back(g.chance(1, 2) ? v : -v);
            }
            f.clauses.push_back(k);
        }
        c.text["cnf"] = f.dimacs();
    }
    else
    {
        Script s;
        Gen G(g);
        auto& k = G.g;
        bool uf = r.chance(1, 4);
        k.bools = 2 + g.below(12);
        k.reals = 3 + g.below(7);
        k.funs = uf ? 1 + g.below(2) : 0;
        k.let = k.ite = g.chance(1, 3);
        k.distinct = g.chance(1, 4);
        k.decimals = g.chance(1, 3);
        k.big = g.chance(1, 6);
        G.names(s, uf ? "QF_UFLRA" : "QF_LRA");
        int style = g.below(4);
        if (style == 0) G.clausal(s, 8 + g.below(14), 20 + g.below(50));
        else if (style == 1) { G.planted(s, 8 + g.below(14)); G.clausal(s, 5, 8); }
        else if (style == 2) { G.chain(s); G.clausal(s, 8, 14); }
        else { int n = 4 + g.below(8); for (int i = 0; i < n; ++i) G.add_assert(s, G.boolean(3 + g.below(2))); }
        if (uf) G.congruence(s, 6);
        add_checks(s, true);
        c.text["script"] = s.text();
    }
    c.cfg["step_limit"] = 6000;
    for (int i = 0; i < c.get("runs"); ++i)
    {
        Case d;
        if (i) { random_plug(d, r); random_options(d, r); }
        if (i == 0) d.cfg["intrude"] = 0;
        for (auto& [key, v] : d.cfg) c.cfg["r" + std::to_string(i) + "." + key] = v;
    }
    return c;
}

void exec_agree(Case const& c, Result& r, Logs& logs)
{
    std::map<int, int> verdict; // run -> answer
    r.sample = c.get("cnf") ? c.str("cnf") : c.str("script");
    Script s;
    if (!c.get("cnf")) s = parse_script(c.str("script"));
    for (int i = 0; i < c.get("runs"); ++i)
    {
        Case d = c;
        std::string p = "r" + std::to_string(i) + ".";
        for (auto& [key, v] : c.cfg)
            if (key.compare(0, p.size(), p) == 0) d.cfg[key.substr(p.size())] = v;
        Plug_cfg pc;
        pc.read_plug(d);
        Session ses(pc, c.sched(i), r);
        if (c.get("cnf"))
        {
            Cnf f = read_cnf(c.str("cnf"));
            std::string bad;
            try { verdict[i] = search_cnf(d, f, ses, bad); }
            catch (Limit&) {}
            yaga::sim::hooks = nullptr;
            if (!bad.empty()) r.fail("bad-model", bad);
        }
        else
        {
            Run_out out = run_script(c.str("script"), read_options(d), &ses);
            Hash h;
            h.add(out.out);
            r.hash = mix(r.hash, h.h);
            if (!out.limited)
            {
                judge_script(s, out, {}, r, false, true);
                auto as = read_answers(out.out);
                if (!as.empty() && as[0].kind <= Answer::UNSAT) verdict[i] = as[0].kind == Answer::SAT;
            }
        }
        finish_session(ses, r, logs);
    }
    int sat = -1, unsat = -1;
    for (auto& [i, v] : verdict) (v ? sat : unsat) = i;
    r.st["runs_compared"] += verdict.size();
    if (sat >= 0) ++r.st["checks_sat"];
    if (unsat >= 0) ++r.st["checks_unsat"];
    if (sat >= 0 && unsat >= 0)
        r.fail("disagree", "schedule " + std::to_string(sat) + " answers sat, schedule " + std::to_string(unsat) + " answers unsat");
}

} // namespace sim
