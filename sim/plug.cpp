#include "plug.hpp"

namespace sim {

using Tk = yaga::terms::Kind;
using yaga::terms::term_t;

mpq_class to_mpq(yaga::Rational const& r)
{
    std::ostringstream o;
    o << r.get_num();
    std::string n = o.str();
    o.str("");
    o << r.get_den();
    std::string d = o.str();
    auto num = [](std::string s) {
        // numbers print as n, (- n), (/ n d) or combinations
        bool neg = false;
        std::string digits;
        bool den = false;
        for (char ch : s)
        {
            if (ch == '-') neg = true;
            if (isdigit((unsigned char)ch) && !den) digits += ch;
            if (ch == ' ' && !digits.empty()) den = true;
        }
        mpz_class z(digits.empty() ? std::string("0") : digits, 10);
        return neg ? mpz_class(-z) : z;
    };
    mpq_class q(num(n), num(d));
    q.canonicalize();
    return q;
}

yaga::Rational to_rational(mpq_class const& q)
{
    std::string s = q.get_num().get_str() + "/" + q.get_den().get_str();
    return yaga::Rational(s.c_str());
}

std::string show(Clause const& c)
{
    std::string s = "{";
    for (auto l : c) s += (s.size() > 1 ? " " : "") + std::string(l.is_negation() ? "-" : "") + std::to_string(l.var().ord() + 1);
    return s + "}";
}

// ------------------------------------------------------------------ Theory_ref

Ref::Lit Theory_ref::make(int v)
{
    if (lra)
    {
        auto cons = lra->constraint(v);
        if (!cons.empty() && cons.lit().var().ord() == v)
        {
            LinExp e;
            auto ci = cons.coef().begin();
            for (auto x : cons.vars()) { e.add(real(x), to_mpq(*ci)); ++ci; }
            e.k -= to_mpq(cons.rhs());
            Ref::Lit l;
            switch (cons.pred())
            {
            case yaga::Order_predicate::eq: l = ref.eq(e); break;
            case yaga::Order_predicate::lt: l = ref.leq(e, true); break;
            default: l = ref.leq(e, false);
            }
            return cons.lit().is_negation() ? -l : l;
        }
    }
    return ref.newBool() + 1;
}

void Theory_ref::sync(Database& db)
{
    if (next_clause == 0) sync_apps();
    for (; next_clause < db.asserted().size(); ++next_clause)
    {
        std::vector<Ref::Lit> c;
        for (auto l : db.asserted()[next_clause]) c.push_back(lit(l));
        ref.addClause(c);
    }
}

LinExp Theory_ref::term_real(term_t t)
{
    auto& tm = yaga_->solver().tm();
    switch (tm.get_kind(t))
    {
    case Tk::ARITH_CONSTANT: return LinExp::num(to_mpq(tm.arithmetic_constant_value(t)));
    case Tk::ARITH_PRODUCT:
    {
        LinExp r;
        r.add(term_real(tm.var_of_product(t)), to_mpq(tm.coeff_of_product(t)));
        return r;
    }
    case Tk::ARITH_POLY:
    {
        LinExp r;
        for (auto a : tm.get_args(t)) r.add(term_real(a), 1);
        return r;
    }
    default:
        auto rv = yaga_->real_vars();
        auto it = rv.base().find(t);
        if (it == rv.base().end()) throw RefLimit("function argument without a variable");
        return real(it->second);
    }
}

Ref::Lit Theory_ref::term_bool(term_t t)
{
    auto& tm = yaga_->solver().tm();
    if (t == yaga::terms::true_term) return ref.T;
    if (t == yaga::terms::false_term) return -ref.T;
    auto bv = yaga_->bool_vars();
    auto it = bv.base().find(tm.positive_term(t));
    if (it == bv.base().end()) throw RefLimit("function argument without a literal");
    return tm.is_negated(t) ? -lit(it->second) : lit(it->second);
}

void Theory_ref::sync_apps()
{
    if (!yaga_) return;
    auto& tm = yaga_->solver().tm();
    std::vector<term_t> apps;
    auto rv = yaga_->real_vars();
    for (auto& [t, o] : rv.base()) if (tm.is_app(t)) apps.push_back(t);
    auto bv = yaga_->bool_vars();
    for (auto& [t, l] : bv.base()) if (tm.is_app(t)) apps.push_back(t);
    std::sort(apps.begin(), apps.end());
    for (size_t i = 0; i < apps.size(); ++i)
        for (size_t j = i + 1; j < apps.size(); ++j)
        {
            if (tm.get_fnc_symbol(apps[i]) != tm.get_fnc_symbol(apps[j])) continue;
            if (!app_done.insert({apps[i].x, apps[j].x}).second) continue;
            auto a = tm.get_args(apps[i]), b = tm.get_args(apps[j]);
            std::vector<Ref::Lit> cl;
            auto eq = [&](term_t x, term_t y) {
                if (tm.get_type(x) == yaga::terms::types::bool_type) return ref.mkIff(term_bool(x), term_bool(y));
                LinExp e = term_real(x);
                e.add(term_real(y), -1);
                return ref.eq(e);
            };
            for (size_t k = 0; k < a.size() && k < b.size(); ++k) cl.push_back(-eq(a[k], b[k]));
            cl.push_back(eq(apps[i], apps[j]));
            ref.addClause(cl);
        }
}

// ------------------------------------------------------------------ Session

bool Plug_cfg::read_plug(Case const& c)
{
    intrude = c.get("intrude", 1);
    order = c.get("order", 0);
    p_var = c.get("p_var"); p_value = c.get("p_value"); p_phase = c.get("p_phase");
    p_restart = c.get("p_restart"); p_split = c.get("p_split");
    prop_bounds = c.get("prop_bounds"); prop_rational = c.get("prop_rational");
    lra_all_conflicts = c.get("all_conflicts", 1);
    lra_prop_unassigned = c.get("prop_unassigned", 0);
    set_lra = !lra_all_conflicts || lra_prop_unassigned;
    step_limit = c.get("step_limit", 4000);
    hostile = c.get("hostile", 1l << 40);
    return true;
}

void Session::step()
{
    ++steps;
    ++res.steps;
    if (steps > cfg.step_limit) { limited = true; throw Limit(); }
    if (on_step) on_step();
}

void Session::attach(yaga::Solver& solver)
{
    trail_ = &solver.trail();
    if (auto* b = dynamic_cast<yaga::Bool_theory*>(solver.theory())) boolean = b;
    if (auto* comb = dynamic_cast<yaga::Theory_combination*>(solver.theory()))
        for (auto* t : comb->theories())
        {
            if (auto* l = dynamic_cast<yaga::Linear_arithmetic*>(t)) lra = l;
            if (auto* b = dynamic_cast<yaga::Bool_theory*>(t)) boolean = b;
        }
    if (lra && cfg.set_lra)
    {
        yaga::Linear_arithmetic::Options o;
        o.prop_bounds = cfg.prop_bounds;
        o.prop_rational = cfg.prop_rational;
        o.return_all_conflicts = cfg.lra_all_conflicts;
        o.prop_unassigned = cfg.lra_prop_unassigned;
        lra->set_options(o);
    }
    if (!cfg.intrude) return;
    solver.set_restart_policy<Sim_restart>(*this);
    std::unique_ptr<yaga::Variable_order> in;
    if (cfg.order == 1) in = std::make_unique<yaga::First_unassigned>();
    else if (lra) in = std::make_unique<yaga::Generalized_vsids>(*lra);
    else in = std::make_unique<yaga::Evsids>();
    solver.set_variable_order<Sim_order>(*this, std::move(in));
}

void Session::on_set_logic(yaga::Initializer const&, yaga::Yaga& y, yaga::Options const& o)
{
    yaga = &y;
    lra = nullptr;
    boolean = nullptr;
    phase_now = o.phase;
    forget();
    attach(y.solver());
    facts = Theory_ref();
    facts.reset(yaga, lra);
}

void Session::forget()
{
    last_value.clear();
    value_unclear.clear();
    last_rational.clear();
    base_before.clear();
    pending.reset();
    pending_value.reset();
    pending_rational.reset();
}

// the variable proposed last has been decided, with the value the options ask for
void Session::check_pending(Trail& trail)
{
    if (!pending) return;
    auto var = *pending;
    pending.reset();
    std::string name = "variable " + std::to_string(var.ord()) + " of type " + std::to_string(var.type());
    auto level = trail.decision_level(var);
    if (!level) violation("not-decided", "the proposed " + name + " has not been assigned");
    if (var.type() == Variable::boolean && pending_value)
    {
        ++phase_checks;
        bool got = trail.model<bool>(Variable::boolean).value(var.ord());
        if (got != *pending_value)
            violation("phase", name + " is decided " + (got ? "true" : "false") + " although the strategy for values (" +
                (phase_now == yaga::Phase::positive ? "positive" : phase_now == yaga::Phase::negative ? "negative" : "cache") + ") asks for " + (*pending_value ? "true" : "false"));
    }
    if (var.type() == Variable::rational)
    {
        auto& got = trail.model<yaga::Rational>(Variable::rational).value(var.ord());
        if (pending_rational)
        {
            ++kept_values;
            if (got != *pending_rational)
                violation("value-not-kept", name + " is given another value than the last one, which is still admissible");
        }
        last_rational[var.ord()] = got;
    }
    pending_value.reset();
    pending_rational.reset();
}

std::vector<int> Session::key(Clause const& c)
{
    std::vector<int> k;
    for (auto l : c) k.push_back(l.is_negation() ? -(l.var().ord() + 1) : l.var().ord() + 1);
    std::sort(k.begin(), k.end());
    return k;
}

void Session::at_init(Database& db, Trail&)
{
    counters.emplace_back();
    pending.reset();
    events.add(1);
    shape.add(1);
    if (cfg.inv & I_KNOW)
    {
        asserted_copy.clear();
        learned_copy.clear();
        learned_ever.clear();
        for (auto& c : db.asserted()) asserted_copy.push_back(key(c));
        for (auto& c : db.learned()) { learned_copy.push_back(key(c)); ++learned_ever[key(c)]; }
    }
}

std::optional<Variable> Session::at_pick(Database& db, Trail& trail, yaga::Variable_order& inner)
{
    step();
    if (cfg.inv & I_OPTIONS) check_pending(trail);
    ++decisions;
    events.add(2);
    shape.add(2);
    if (cfg.inv & I_STATE) check_state(db, trail);
    if (cfg.inv & I_KNOW) check_knowledge(db, trail, false);
    if (cfg.inv & I_BOUNDS) check_bounds(db, trail);

    std::vector<Variable> open;
    for (auto [type, model] : trail.models())
        for (int i = 0; i < static_cast<int>(model->num_vars()); ++i)
            if (!model->is_defined(i)) open.push_back(Variable{i, type});

    if (boolean)
    {
        static yaga::Phase const ph[] = {yaga::Phase::positive, yaga::Phase::positive, yaga::Phase::negative, yaga::Phase::cache};
        uint32_t p = sched.choose(K_PHASE, 4, permille(cfg.p_phase));
        if (p) { boolean->set_phase(ph[p]); phase_now = ph[p]; }
    }
    auto proposed = [&](Variable var) {
        if (!counters.empty()) ++counters.back().decisions;
        if (!(cfg.inv & I_OPTIONS)) return;
        pending = var;
        if (var.type() != Variable::boolean || value_unclear.count(var.ord())) return;
        switch (phase_now)
        {
        case yaga::Phase::positive: pending_value = true; break;
        case yaga::Phase::negative: pending_value = false; break;
        case yaga::Phase::cache: pending_value = !last_value.count(var.ord()) || last_value[var.ord()]; break;
        }
    };
    uint32_t v = sched.choose(K_VAR, static_cast<uint32_t>(open.size()) + 1, permille(cfg.p_var));
    if (v)
    {
        Variable var = open[v - 1];
        events.add(var.ord() * 2 + var.type());
        shape.add(var.ord() * 2 + var.type());
        proposed(var);
        return var;
    }
    auto var = inner.pick(db, trail);
    if (cfg.inv & I_COMPLETE)
    {
        ++state_checks;
        if (!var && !open.empty())
            violation("decision-skipped", "the heuristic reports no variable left but variable " + std::to_string(open[0].ord()) +
                " of type " + std::to_string(open[0].type()) + " has no value");
        if (var)
        {
            bool unassigned = false;
            for (auto& o : open) unassigned |= o == *var;
            if (!unassigned)
                violation("decided-twice", "the heuristic proposes variable " + std::to_string(var->ord()) + " of type " +
                    std::to_string(var->type()) + ", which has a value or does not exist");
        }
    }
    if (var) proposed(*var);
    int code = var ? var->ord() * 2 + var->type() : -1;
    events.add(code);
    shape.add(code);
    return var;
}

void Session::on_suggest_value(int ord, yaga::Rational& value)
{
    uint32_t c = sched.choose(K_VALUE, 13, permille(cfg.p_value));
    if ((cfg.inv & I_OPTIONS) && !c && pending && pending->type() == Variable::rational && pending->ord() == ord)
    {
        auto it = last_rational.find(ord);
        yaga::Rational kept = it == last_rational.end() ? yaga::Rational{0} : it->second;
        auto models = lra->relevant_models(*trail_);
        if (lra->find_bounds(ord).is_allowed(models, kept)) pending_rational = kept;
    }
    if (c)
    {
        auto models = lra->relevant_models(*trail_);
        auto& b = lra->find_bounds(ord);
        auto* lo = b.lower_bound(models);
        auto* up = b.upper_bound(models);
        switch (c)
        {
        case 1: value = 0; break;
        case 2: value = 1; break;
        case 3: value = -1; break;
        case 4: value = yaga::Rational{1} / yaga::Rational{2}; break;
        case 5: if (lo) value = lo->value(); break;
        case 6: if (up) value = up->value(); break;
        case 7: if (lo && up) value = (lo->value() + up->value()) / yaga::Rational{2}; break;
        case 8: value = value + yaga::Rational{1}; break;
        case 9: value = yaga::Rational{1000000007} / yaga::Rational{3}; break;
        case 10: if (lo) value = lo->value() + yaga::Rational{1} / yaga::Rational{7}; break;
        case 11: if (up) value = up->value() - yaga::Rational{1} / yaga::Rational{7}; break;
        case 12:
        {
            // the value of another variable: makes congruences fire
            auto& m = models.owned();
            for (int i = 0; i < static_cast<int>(m.num_vars()); ++i)
                if (i != ord && m.is_defined(i)) { value = m.value(i); break; }
            break;
        }
        }
        if (b.is_allowed(models, value)) ++value_overrides_legal;
    }
    events.add(c);
}

void Session::at_learned(Database& db, Trail& trail, Clause const& c)
{
    step();
    if (cfg.inv & I_OPTIONS) check_pending(trail);
    if (!counters.empty()) ++counters.back().learned;
    ++conflicts;
    events.add(3);
    shape.add(3);
    for (auto l : c) { int v = (l.var().ord() + 1) * (l.is_negation() ? -1 : 1); events.add(v); shape.add(v); }
    if (cfg.inv & I_STATE)
        for (auto l : c)
            if (yaga::eval(trail.model<bool>(Variable::boolean), l) != false)
                violation("learned-not-false", "the clause " + show(c) + " derived from a conflict is not false in the state it was derived in");
    if (cfg.inv & I_KNOW)
    {
        learned_copy.push_back(key(c));
        ++learned_ever[key(c)];
    }
    if ((cfg.inv & I_FACTS) && !facts.gave_up)
    {
        try
        {
            facts.sync(db);
            if (!facts.implied(c))
            {
                std::string d;
                for (auto l : c)
                {
                    std::ostringstream o;
                    o << " " << (l.is_negation() ? "-" : "") << l.var().ord() + 1;
                    if (lra && !lra->constraint(l).empty()) o << "[" << lra->constraint(l) << "]";
                    d += o.str();
                }
                violation("learned-not-implied", "a learned clause does not follow from the assertions:" + d);
            }
        }
        catch (RefLimit&) { facts.gave_up = true; ++res.st["reference_gave_up"]; }
    }
}

void Session::at_backtrack(Database& db, Trail& trail, int level)
{
    events.add(4);
    events.add(level);
    shape.add(4);
    shape.add(level);
    if ((cfg.inv & I_STATE) && (level < 0 || level >= trail.decision_level()) && !(level == 0 && trail.decision_level() == 0))
        violation("backtrack-level", "backtracking from level " + std::to_string(trail.decision_level()) + " to " + std::to_string(level));
    if (cfg.inv & I_KNOW) check_knowledge(db, trail, false);
    if (!counters.empty()) ++counters.back().backtracks;
    if (cfg.inv & I_OPTIONS)
    {
        check_pending(trail);
        auto& model = trail.model<bool>(Variable::boolean);
        base_before.clear();
        for (int i = 0; i < static_cast<int>(model.num_vars()); ++i)
        {
            auto l = trail.decision_level(Variable{i, Variable::boolean});
            if (!l) continue;
            if (*l > level) { last_value[i] = model.value(i); value_unclear.erase(i); }
            else if (level == 0) base_before.push_back(i);
        }
    }
}

void Session::at_restart(Database& db, Trail& trail)
{
    step();
    if (!counters.empty()) ++counters.back().restarts;
    for (int i : base_before) value_unclear.insert(i);
    base_before.clear();
    ++restarts;
    events.add(5);
    shape.add(5);
    if (cfg.inv & I_KNOW)
    {
        if (trail.decision_level() != 0)
            violation("restart-keeps-decisions", "the decision level after a restart is " + std::to_string(trail.decision_level()));
        for (auto [type, model] : trail.models())
            for (int i = 0; i < static_cast<int>(model->num_vars()); ++i)
            {
                Variable v{i, type};
                if (trail.decision_level(v).value_or(0) != 0)
                    violation("restart-keeps-decisions", "variable " + std::to_string(i) + " still has a decision level after a restart");
                bool listed = false;
                for (auto& a : trail.assigned(0)) listed |= a.var == v;
                if (model->is_defined(i) && !listed)
                    violation("restart-keeps-decisions", "variable " + std::to_string(i) + " of type " + std::to_string(type) +
                        " keeps a value over a restart although it is not on the trail");
            }
        check_knowledge(db, trail, true);
    }
}

bool Session::at_should_restart()
{
    bool r = sched.choose(K_RESTART, 2, permille(cfg.p_restart)) != 0;
    if (r) ++restarts_forced;
    return r;
}

bool Session::at_is_before(bool inner)
{
    return sched.choose(K_SPLIT, 2, permille(cfg.p_split)) ? !inner : inner;
}

// ------------------------------------------------------------------ invariants

void Session::check_state(Database& db, Trail& trail)
{
    ++state_checks;
    auto& model = trail.model<bool>(Variable::boolean);
    int nb = model.num_vars();
    for (auto* list : {&db.asserted(), &db.learned()})
        for (auto& c : *list)
        {
            int open = 0;
            bool sat = false;
            for (auto l : c)
            {
                if (l.var().ord() >= nb) violation("unknown-variable", "clause " + show(c) + " has a variable that does not exist");
                auto v = yaga::eval(model, l);
                if (v == true) { sat = true; break; }
                if (!v) ++open;
            }
            if (sat) continue;
            if (open == 0)
                violation("missed-conflict", std::string(list == &db.asserted() ? "asserted" : "learned") + " clause " + show(c) +
                    " is false when the next decision is made");
            if (open == 1)
            {
                // duplicate literals do not make a clause longer
                violation("missed-propagation", std::string(list == &db.asserted() ? "asserted" : "learned") + " clause " + show(c) +
                    " has one literal left but it has not been propagated");
            }
        }
    if (lra)
    {
        auto models = lra->relevant_models(trail);
        for (int v = 0; v < nb; ++v)
        {
            auto cons = lra->constraint(v);
            if (cons.empty()) continue;
            bool full = true;
            mpq_class sum = 0;
            int lvl = 0;
            auto ci = cons.coef().begin();
            for (auto x : cons.vars())
            {
                if (!models.owned().is_defined(x)) { full = false; break; }
                sum += to_mpq(*ci) * to_mpq(models.owned().value(x));
                lvl = std::max(lvl, trail.decision_level(Variable{x, Variable::rational}).value_or(1 << 20));
                ++ci;
            }
            if (!full) continue;
            mpq_class rhs = to_mpq(cons.rhs());
            bool truth = cons.pred() == yaga::Order_predicate::eq ? sum == rhs : cons.pred() == yaga::Order_predicate::lt ? sum < rhs : sum <= rhs;
            auto val = yaga::eval(model, cons.lit());
            std::ostringstream o;
            o << cons;
            if (!val) violation("atom-not-evaluated", "all variables of the atom " + o.str() + " have values but it has no truth value");
            if (*val != truth) violation("atom-mismatch", "the atom " + o.str() + " is assigned " + (*val ? "true" : "false") + " against the values of its variables");
        }
    }
    // the trail
    std::map<std::pair<int, int>, int> seen;
    for (int lv = 0; lv <= trail.decision_level(); ++lv)
    {
        auto const& as = trail.assigned(lv);
        if (lv > 0)
        {
            if (as.empty()) violation("trail-empty-level", "decision level " + std::to_string(lv) + " has no decision");
            auto d = as.front();
            if (trail.decision_level(d.var) != lv || trail.reason(d.var) != nullptr)
                violation("trail-decision", "the first assignment of level " + std::to_string(lv) + " is not its decision");
        }
        for (auto& a : as)
        {
            auto l = trail.decision_level(a.var);
            if (!l || *l > lv) violation("trail-level", "variable " + std::to_string(a.var.ord()) + " is listed at level " + std::to_string(lv) + " but recorded at a later one or none");
            if (!trail.model(a.var.type()).is_defined(a.var.ord()))
                violation("trail-no-value", "variable " + std::to_string(a.var.ord()) + " is on the trail without a value");
            if (*l == lv) seen[{a.var.type(), a.var.ord()}] = lv;
        }
    }
    for (auto [type, m] : trail.models())
        for (int i = 0; i < static_cast<int>(m->num_vars()); ++i)
        {
            Variable v{i, type};
            auto l = trail.decision_level(v);
            if (m->is_defined(i) != l.has_value())
                violation("trail-level", "variable " + std::to_string(i) + " of type " + std::to_string(type) + (l ? " has a level but no value" : " has a value but no level"));
            if (l && !seen.count({type, i}))
                violation("trail-missing", "variable " + std::to_string(i) + " of type " + std::to_string(type) + " is recorded at level " + std::to_string(*l) + " but not listed there");
            if (l && type == Variable::boolean)
                if (auto* r = trail.reason(v))
                {
                    bool has = false;
                    for (auto lit : *r)
                    {
                        auto val = yaga::eval(model, lit);
                        if (lit.var() == v) { has = true; if (val != true) violation("reason-false", "the reason " + show(*r) + " of variable " + std::to_string(i + 1) + " does not make it true"); continue; }
                        if (val != false) violation("reason-open", "the reason " + show(*r) + " of variable " + std::to_string(i + 1) + " has another literal that is not false");
                        if (*trail.decision_level(lit.var()) > *l) violation("reason-level", "variable " + std::to_string(i + 1) + " is recorded below the level of its reason " + show(*r));
                    }
                    if (!has) violation("reason-foreign", "the reason " + show(*r) + " does not mention variable " + std::to_string(i + 1));
                }
        }
}

void Session::check_knowledge(Database& db, Trail&, bool after_restart)
{
    ++know_checks;
    if (db.asserted().size() != asserted_copy.size())
        violation("asserted-changed", "there are " + std::to_string(db.asserted().size()) + " asserted clauses instead of " + std::to_string(asserted_copy.size()));
    for (size_t i = 0; i < asserted_copy.size(); ++i)
        if (key(db.asserted()[i]) != asserted_copy[i])
            violation("asserted-changed", "an asserted clause now reads " + show(db.asserted()[i]));
    std::map<std::vector<int>, int> now;
    for (auto& c : db.learned())
    {
        auto k = key(c);
        ++now[k];
        if (!learned_ever.count(k)) violation("learned-changed", "the store has the learned clause " + show(c) + ", which was never learned");
    }
    // clauses may only disappear when another clause in the store says at least as much
    for (auto& k : learned_copy)
    {
        if (now.count(k)) continue;
        bool covered = false;
        for (auto& [o, n] : now) covered |= std::includes(k.begin(), k.end(), o.begin(), o.end());
        for (auto& o : asserted_copy) covered |= std::includes(k.begin(), k.end(), o.begin(), o.end());
        if (!covered)
        {
            std::string s;
            for (int l : k) s += " " + std::to_string(l);
            violation("learned-lost", "a learned clause was dropped although no other clause covers it:" + s);
        }
    }
    if (after_restart)
    {
        learned_copy.clear();
        for (auto& c : db.learned()) learned_copy.push_back(key(c));
    }
}

void Session::check_bounds(Database& db, Trail& trail)
{
    if (!lra) return;
    auto models = lra->relevant_models(trail);
    int nb = models.boolean().num_vars();
    int nr = models.owned().num_vars();
    struct B { bool has = false; mpq_class v; bool strict = false; };
    std::vector<B> lo(nr), up(nr);
    std::vector<std::vector<mpq_class>> out(nr);
    for (int v = 0; v < nb; ++v)
    {
        auto cons = lra->constraint(v);
        if (cons.empty() || !models.boolean().is_defined(v)) continue;
        bool pos = models.boolean().value(v) == !cons.lit().is_negation();
        int open = -1, nopen = 0;
        mpq_class k, rhs = to_mpq(cons.rhs());
        auto ci = cons.coef().begin();
        for (auto x : cons.vars())
        {
            if (!models.owned().is_defined(x)) { ++nopen; open = x; k = to_mpq(*ci); }
            else rhs -= to_mpq(*ci) * to_mpq(models.owned().value(x));
            ++ci;
        }
        if (nopen != 1 || k == 0) continue;
        mpq_class val = rhs / k;
        auto add = [&](bool upper, bool strict) {
            B& b = (upper ? up : lo)[open];
            if (!b.has || (upper ? val < b.v : val > b.v) || (val == b.v && strict && !b.strict)) b = {true, val, strict};
        };
        if (cons.pred() == yaga::Order_predicate::eq)
        {
            if (pos) { add(true, false); add(false, false); }
            else out[open].push_back(val);
        }
        else
        {
            bool strict = cons.pred() == yaga::Order_predicate::lt;
            bool upper = k > 0;
            if (!pos) { upper = !upper; strict = !strict; }
            add(upper, strict);
        }
    }
    for (int x = 0; x < nr; ++x)
    {
        if (models.owned().is_defined(x)) continue;
        ++bound_checks;
        auto& tb = lra->find_bounds(x);
        auto who = [&] { return "x" + std::to_string(x); };
        for (int side = 0; side < 2; ++side)
        {
            B& d = side ? up[x] : lo[x];
            auto* t = side ? tb.upper_bound(models) : tb.lower_bound(models);
            std::string nm = side ? "upper" : "lower";
            if (d.has && !t)
                violation("bound-missing", "no " + nm + " bound is kept for " + who() + " although a constraint gives " + d.v.get_str());
            if (!t) continue;
            mpq_class tv = to_mpq(t->value());
            bool tighter = d.has && (side ? d.v < tv : d.v > tv);
            if (tighter || (d.has && d.v == tv && d.strict && !t->is_strict()))
                violation("bound-loose", "the " + nm + " bound kept for " + who() + " is " + tv.get_str() + (t->is_strict() ? " (strict)" : "") +
                    " but a constraint gives " + d.v.get_str() + (d.strict ? " (strict)" : ""));
            bool derived = !d.has || d.v != tv || d.strict != t->is_strict();
            if (derived)
            {
                if (!cfg.prop_bounds)
                    violation("bound-stale", "the " + nm + " bound kept for " + who() + " is " + tv.get_str() + (t->is_strict() ? " (strict)" : "") +
                        " but no constraint with " + who() + " as its only open variable gives it");
                else if (!facts.gave_up && derived_checks < 120 && (derived_checks < 40 || (steps + x) % 4 == 0))
                {
                    // must follow from the constraints asserted true together with the values
                    try
                    {
                        ++derived_checks;
                        ++res.st["derived_bounds_checked"];
                        (void)db;
                        Ref ref;
                        std::vector<int> rv(nr);
                        std::vector<char> have(nr, 0);
                        auto real = [&](int y) { if (!have[y]) { have[y] = 1; rv[y] = ref.newReal(); } return LinExp::var(rv[y]); };
                        for (int v = 0; v < nb; ++v)
                        {
                            auto cons = lra->constraint(v);
                            if (cons.empty() || !models.boolean().is_defined(v)) continue;
                            LinExp e;
                            auto ci = cons.coef().begin();
                            for (auto y : cons.vars())
                            {
                                if (models.owned().is_defined(y)) e.k += to_mpq(*ci) * to_mpq(models.owned().value(y));
                                else e.add(real(y), to_mpq(*ci));
                                ++ci;
                            }
                            e.k -= to_mpq(cons.rhs());
                            Ref::Lit l = cons.pred() == yaga::Order_predicate::eq ? ref.eq(e) : ref.leq(e, cons.pred() == yaga::Order_predicate::lt);
                            bool pos = models.boolean().value(v) == !cons.lit().is_negation();
                            ref.addClause({pos ? l : -l});
                        }
                        // x beyond the bound must be impossible
                        LinExp e;
                        e.add(real(x), 1);
                        e.k -= tv;
                        Ref::Lit inside;
                        if (side) inside = ref.leq(e, t->is_strict());
                        else { LinExp m; m.add(e, -1); inside = ref.leq(m, t->is_strict()); }
                        if (ref.solve({-inside}))
                            violation("bound-unsound", "the " + nm + " bound " + tv.get_str() + (t->is_strict() ? " (strict)" : "") + " kept for " + who() +
                                " does not follow from the constraints asserted true");
                    }
                    catch (RefLimit&) { ++res.st["reference_gave_up"]; }
                }
            }
        }
        // values: the bound itself, neighbours, forbidden values
        std::vector<mpq_class> cand{0};
        if (lo[x].has) { cand.push_back(lo[x].v); cand.push_back(lo[x].v + mpq_class(1, 3)); cand.push_back(lo[x].v - mpq_class(1, 3)); }
        if (up[x].has) { cand.push_back(up[x].v); cand.push_back(up[x].v + mpq_class(1, 3)); cand.push_back(up[x].v - mpq_class(1, 3)); }
        for (auto& q : out[x]) cand.push_back(q);
        for (auto& q : cand)
        {
            bool ok = true;
            if (lo[x].has) ok &= lo[x].strict ? q > lo[x].v : q >= lo[x].v;
            if (up[x].has) ok &= up[x].strict ? q < up[x].v : q <= up[x].v;
            for (auto& o : out[x]) ok &= o != q;
            bool allowed = tb.is_allowed(models, to_rational(q));
            if (allowed && !ok) violation("value-accepted", "the value " + q.get_str() + " is accepted for " + who() + " although a constraint forbids it");
            if (!allowed && ok && !cfg.prop_bounds)
                violation("value-rejected", "the value " + q.get_str() + " is rejected for " + who() + " although no constraint forbids it");
        }
    }
}

} // namespace sim
