// C07, C12, C19: the arithmetic plugin (and a decision heuristic) alone, driven by a simulated solver: a seeded list of operations
// (new atoms, decisions, propagations at any level, values, backtracks) is the history.
#include "scen.hpp"
#include <algorithm>
#include <cmath>

namespace sim {
namespace {

using yaga::Event_dispatcher;
using yaga::Linear_arithmetic;
using yaga::Order_predicate;
using yaga::Rational;

// suggests the value the next decision tries first
struct Suggest final : yaga::sim::Hooks {
    std::optional<Rational> value;
    void on_set_logic(yaga::Initializer const&, yaga::Yaga&, yaga::Options const&) override {}
    void on_suggest_value(int, Rational& v) override { if (value) v = *value; value.reset(); }
};

// What the definition of the activity heuristics says: every occurrence of a variable in a clause that took part in a
// conflict (directly, or through the constraint of an atom) adds the current weight, which grows by a fixed factor per
// learned clause.
struct Activity {
    int kind = 0; // as in Machine
    std::vector<long double> act[2];
    long double inc = 1, grow = 1;

    static long double factor(Database& db, Trail& trail)
    {
        // measured on a heuristic of its own, like the unit of the restart intervals
        yaga::Evsids e;
        e.on_variable_resize(Variable::boolean, 1);
        Clause c(std::vector<yaga::Literal>{yaga::Literal{0}});
        std::vector<long double> s{0};
        for (int i = 0; i < 101; ++i) { e.on_learned_clause(db, trail, c); s.push_back(e.score(0)); }
        long double first = s[1] - s[0], last = s[101] - s[100], g = std::pow(last / first, 1.0l / 100);
        return std::fabs(g - 1.05l) < 1e-4l ? static_cast<long double>(1.05f) : g;
    }
    long double& at(Variable v)
    {
        auto& a = act[v.type() == Variable::boolean ? 0 : 1];
        if (static_cast<int>(a.size()) <= v.ord()) a.resize(v.ord() + 1, 0);
        return a[v.ord()];
    }
    void add(Clause const& c, Linear_arithmetic& lra)
    {
        for (auto l : c)
        {
            at(l.var()) += inc;
            if (kind == 1)
                for (auto x : lra.constraint(l.var().ord()).vars()) at(Variable{x, Variable::rational}) += inc;
        }
    }
    void learned()
    {
        inc *= grow;
        if (inc < 1e4000l) return;
        for (auto& a : act) for (auto& v : a) v /= 1e3900l;
        inc /= 1e3900l;
    }
    void reset() { for (auto& a : act) for (auto& v : a) v = 0; }
    // so small that single precision need not keep it
    bool tiny(long double v) const { return v < inc * 1e-30l; }
    bool above(long double a, long double b) const { return !tiny(a) && a > b * 1.001l; }
};

struct Atom { std::vector<std::pair<int, mpq_class>> c; mpq_class rhs; int pred; }; // pred: 0 =, 1 <, 2 <=

struct Machine {
    Result& r;
    Database db;
    Linear_arithmetic lra;
    Event_dispatcher dispatcher;
    Trail trail{dispatcher};
    Linear_arithmetic::Options opt;
    std::vector<int> mine; // boolean variables of the atoms the simulated solver made
    std::map<int, Atom> atoms;
    Suggest hook;
    bool clean = false; // nothing changed since the last propagation, which found no conflict
    bool over = false;  // a conflict at level 0
    Hash h, shape;
    uint64_t conflicts = 0, checks = 0, refs = 0, bound_checks = 0, count = 0;
    int query = 0; // look at the bounds at every so many operations (looking makes the plugin drop old ones)
    int n;
    std::string where;
    std::unique_ptr<yaga::Variable_order> order; // the decision heuristic that listens, if any
    bool bool_order = false;                     // it only knows Boolean variables
    uint64_t picks = 0, bumps = 0, restarts = 0, midway = 0, ranked = 0, compared = 0, inits = 0, singles = 0, rescaled = 0;
    Activity activity;
    bool rank = false; // hold the heuristic to its definition
    int kind;

    Machine(Result& res, int vars, Linear_arithmetic::Options o, int k) : r(res), opt(o), n(vars), kind(k)
    {
        activity.kind = kind;
        activity.grow = Activity::factor(db, trail);
        dispatcher.add(&lra);
        if (kind == 1) order = std::make_unique<yaga::Generalized_vsids>(lra);
        if (kind == 2) { order = std::make_unique<yaga::Evsids>(); bool_order = true; }
        if (kind == 3) order = std::make_unique<yaga::First_unassigned>();
        if (order) dispatcher.add(order.get());
        lra.set_options(o);
        trail.set_model<bool>(Variable::boolean, 0);
        trail.set_model<Rational>(Variable::rational, vars);
        dispatcher.on_init(db, trail);
    }
    void bad(std::string const& cls, std::string const& d) { r.fail(cls, where + ": " + d); }
    auto models() { return lra.relevant_models(trail); }
    bool assigned(int v) { return trail.model<bool>(Variable::boolean).is_defined(v); }
    bool known(int x) { return trail.model<Rational>(Variable::rational).is_defined(x); }

    // the atom of a boolean variable; new ones come from conflict explanations too
    Atom const* atom(int v)
    {
        auto it = atoms.find(v);
        if (it != atoms.end()) return &it->second;
        auto cons = lra.constraint(v);
        if (cons.empty()) return nullptr;
        Atom a;
        auto ci = cons.coef().begin();
        for (auto x : cons.vars()) { a.c.emplace_back(x, to_mpq(*ci)); ++ci; }
        a.rhs = to_mpq(cons.rhs());
        a.pred = cons.pred() == Order_predicate::eq ? 0 : cons.pred() == Order_predicate::lt ? 1 : 2;
        if (cons.lit().is_negation())
        {
            // store what the positive literal means: sum >(=) rhs
            for (auto& [x, q] : a.c) q = -q;
            a.rhs = -a.rhs;
            if (a.pred == 0) { bad("harness", "negated equality stored"); return nullptr; }
            a.pred = 3 - a.pred;
        }
        return &atoms.emplace(v, a).first->second;
    }

    void literal(Ref& ref, std::vector<int>& rv, int v, bool positive, bool values, std::vector<Ref::Lit>* collect = nullptr)
    {
        auto* a = atom(v);
        if (!a) return;
        LinExp e;
        auto m = models();
        for (auto& [x, q] : a->c)
        {
            if (values && m.owned().is_defined(x)) { e.k += q * to_mpq(m.owned().value(x)); continue; }
            if (static_cast<int>(rv.size()) <= x) rv.resize(x + 1, -1);
            if (rv[x] < 0) rv[x] = ref.newReal();
            e.add(LinExp::var(rv[x]), q);
        }
        e.k -= a->rhs;
        Ref::Lit l = a->pred == 0 ? ref.eq(e) : ref.leq(e, a->pred == 1);
        if (!positive) l = -l;
        if (collect) collect->push_back(l);
        else ref.addClause({l});
    }

    // ------------------------------------------------------------------ what must hold

    struct Range { bool has_lo = false, has_up = false, slo = false, sup = false; mpq_class lo, up; std::vector<mpq_class> out; };

    std::vector<Range> ranges()
    {
        std::vector<Range> R(trail.model<Rational>(Variable::rational).num_vars());
        auto m = models();
        int nb = m.boolean().num_vars();
        for (int v = 0; v < nb; ++v)
        {
            auto* a = atom(v);
            if (!a || !m.boolean().is_defined(v)) continue;
            int open = -1, count = 0;
            mpq_class k, rhs = a->rhs;
            for (auto& [x, q] : a->c)
            {
                if (!m.owned().is_defined(x)) { ++count; open = x; k = q; }
                else rhs -= q * to_mpq(m.owned().value(x));
            }
            if (count != 1) continue;
            bool pos = m.boolean().value(v);
            mpq_class val = rhs / k;
            auto& g = R[open];
            if (a->pred == 0 && !pos) { g.out.push_back(val); continue; }
            bool upper = k > 0, strict = a->pred == 1;
            if (!pos) { upper = !upper; strict = !strict; }
            if (a->pred == 0 || upper)
                if (!g.has_up || val < g.up || (val == g.up && strict && a->pred != 0)) { g.sup = a->pred != 0 && strict; g.up = val; g.has_up = true; }
            if (a->pred == 0 || !upper)
                if (!g.has_lo || val > g.lo || (val == g.lo && strict && a->pred != 0)) { g.slo = a->pred != 0 && strict; g.lo = val; g.has_lo = true; }
        }
        return R;
    }
    static bool admits(Range const& g, mpq_class const& q)
    {
        if (g.has_lo && (q < g.lo || (g.slo && q == g.lo))) return false;
        if (g.has_up && (q > g.up || (g.sup && q == g.up))) return false;
        return std::find(g.out.begin(), g.out.end(), q) == g.out.end();
    }
    static bool single(Range const& g) { return g.has_lo && g.has_up && g.lo == g.up; }
    static bool empty(Range const& g)
    {
        if (!g.has_lo || !g.has_up) return false;
        if (g.lo < g.up) return false;
        return !(g.lo == g.up && admits(g, g.lo));
    }

    void check_quiet()
    {
        ++checks;
        auto m = models();
        int nb = m.boolean().num_vars();
        for (int v = 0; v < nb; ++v)
        {
            auto* a = atom(v);
            if (!a) continue;
            mpq_class sum = 0;
            bool full = true;
            for (auto& [x, q] : a->c)
            {
                if (!m.owned().is_defined(x)) { full = false; break; }
                sum += q * to_mpq(m.owned().value(x));
            }
            if (!full) continue;
            bool truth = a->pred == 0 ? sum == a->rhs : a->pred == 1 ? sum < a->rhs : sum <= a->rhs;
            if (!m.boolean().is_defined(v)) bad("atom-not-evaluated", "atom " + std::to_string(v) + " has values for all its variables but no truth value, and no conflict is reported");
            else if (m.boolean().value(v) != truth) bad("missed-conflict", "atom " + std::to_string(v) + " contradicts the values of its variables, and no conflict is reported");
        }
        auto R = ranges();
        for (size_t x = 0; x < R.size(); ++x)
        {
            if (known(x)) continue;
            if (empty(R[x]))
                bad("missed-conflict", "no conflict is reported although variable " + std::to_string(x) + " has no admissible value left");
            if (!opt.prop_bounds && r.cls.empty())
            {
                bool one = lra.is_effectively_decided(m, static_cast<int>(x));
                if (one != single(R[x]))
                    bad("effectively-decided", "variable " + std::to_string(x) + (one ? " is" : " is not") + " reported to have exactly one value left");
            }
        }
    }

    // the bounds kept for open variables; settled: everything assigned so far has been seen
    void check_bounds(bool settled)
    {
        ++bound_checks;
        auto R = ranges();
        auto m = models();
        for (size_t x = 0; x < R.size() && r.cls.empty(); ++x)
        {
            if (known(x)) continue;
            auto& g = R[x];
            auto& kept = lra.find_bounds(static_cast<int>(x));
            std::string who = "variable " + std::to_string(x);
            for (int side = 0; side < 2; ++side)
            {
                auto* t = side ? kept.upper_bound(m) : kept.lower_bound(m);
                bool has = side ? g.has_up : g.has_lo, strict = side ? g.sup : g.slo;
                mpq_class want = side ? g.up : g.lo;
                std::string nm = side ? "upper" : "lower", given = want.get_str() + (strict ? " (strict)" : "");
                if (!t)
                {
                    if (has && settled) bad("bound-missing", "no " + nm + " bound is kept for " + who + " although a constraint gives " + given);
                    continue;
                }
                mpq_class tv = to_mpq(t->value());
                std::string is = "the " + nm + " bound kept for " + who + " is " + tv.get_str() + (t->is_strict() ? " (strict)" : "");
                bool looser = has && (side ? want < tv : want > tv), tighter = !has || (side ? tv < want : tv > want);
                if (has && tv == want) { looser = strict && !t->is_strict(); tighter = !strict && t->is_strict(); }
                if (looser && settled) bad("bound-loose", is + " but a constraint gives " + given);
                if (!tighter) continue;
                if (!opt.prop_bounds) { bad("bound-stale", is + " but no constraint with only this variable open gives it"); continue; }
                if (refs > 60) continue;
                ++refs;
                ++r.st["derived_bounds_checked"];
                Ref ref;
                ref.work_limit = 400000;
                std::vector<int> rv(R.size(), -1);
                int nb = m.boolean().num_vars();
                for (int u = 0; u < nb; ++u) if (m.boolean().is_defined(u)) literal(ref, rv, u, m.boolean().value(u), true);
                if (rv[x] < 0) rv[x] = ref.newReal();
                LinExp e;
                e.add(LinExp::var(rv[x]), side ? 1 : -1);
                e.k = side ? mpq_class(-tv) : tv;
                try
                {
                    if (ref.solve({-ref.leq(e, t->is_strict())})) bad("bound-unsound", is + " but it does not follow from the constraints asserted true");
                }
                catch (RefLimit&) { ++r.st["reference_gave_up"]; }
            }
            if (!settled) continue;
            std::vector<mpq_class> cand{0};
            for (auto q : {g.lo, g.up}) { cand.push_back(q); cand.push_back(q + mpq_class(1, 3)); cand.push_back(q - mpq_class(1, 3)); }
            for (auto& q : g.out) cand.push_back(q);
            for (auto& q : cand)
            {
                bool ok = admits(g, q), allowed = kept.is_allowed(m, to_rational(q));
                if (allowed && !ok) bad("value-accepted", "the value " + q.get_str() + " is accepted for " + who + " although a constraint forbids it");
                if (!allowed && ok && !opt.prop_bounds) bad("value-rejected", "the value " + q.get_str() + " is rejected for " + who + " although no constraint forbids it");
            }
        }
    }

    void check_conflict(Clause const& c)
    {
        ++conflicts;
        auto& model = trail.model<bool>(Variable::boolean);
        Ref ref;
        std::vector<int> rv;
        ref.work_limit = 400000;
        for (auto l : c)
        {
            int v = l.var().ord();
            if (v >= static_cast<int>(model.num_vars())) { bad("conflict-unknown-variable", "the conflict " + show(c) + " has a variable that does not exist"); return; }
            if (yaga::eval(model, l) != false) { bad("conflict-not-false", "the reported conflict " + show(c) + " is not false: literal " + std::to_string(v + 1)); return; }
            if (!trail.decision_level(l.var())) { bad("conflict-not-false", "the reported conflict " + show(c) + " has a variable that is not on the trail"); return; }
            if (!atom(v)) { bad("conflict-not-valid", "the reported conflict " + show(c) + " has a variable that is no atom"); return; }
            literal(ref, rv, v, l.is_negation(), false);
        }
        try
        {
            if (ref.solve()) bad("conflict-not-valid", "the reported conflict " + show(c) + " is not valid in arithmetic");
        }
        catch (RefLimit&) { ++r.st["reference_gave_up"]; }
    }

    // an atom the plugin gave a truth value to must have it in every extension
    void check_propagated(int v)
    {
        auto* a = atom(v);
        if (!a) { bad("propagation", "a variable that is no atom was propagated"); return; }
        auto m = models();
        bool full = true;
        for (auto& [x, q] : a->c) full &= m.owned().is_defined(x);
        if (full) return; // checked by value
        ++r.st["propagated_before_evaluated"];
        if (refs > 60) return;
        ++refs;
        Ref ref;
        ref.work_limit = 400000;
        std::vector<int> rv;
        int nb = m.boolean().num_vars();
        for (int u = 0; u < nb; ++u)
            if (u != v && m.boolean().is_defined(u)) literal(ref, rv, u, m.boolean().value(u), true);
        literal(ref, rv, v, !m.boolean().value(v), true);
        try
        {
            if (ref.solve()) bad("propagation", "atom " + std::to_string(v) + " was propagated to " + (m.boolean().value(v) ? "true" : "false") + " although it does not follow");
        }
        catch (RefLimit&) { ++r.st["reference_gave_up"]; }
    }

    // ------------------------------------------------------------------ the simulated solver

    void backtrack(int level)
    {
        if (level >= trail.decision_level()) return;
        dispatcher.on_before_backtrack(db, trail, level);
        trail.backtrack(level);
        clean = false;
        shape.add(1000 + level);
    }

    // propagate to a fixpoint; false if that ended in a conflict, which is then undone
    bool settle(int choice)
    {
        if (clean) return true;
        std::set<int> before;
        int nb = trail.model<bool>(Variable::boolean).num_vars();
        for (int v = 0; v < nb; ++v) if (assigned(v)) before.insert(v);
        std::vector<Clause> found;
        for (size_t size = ~size_t{0}; found.empty() && size != trail.recent().size();)
        {
            size = trail.recent().size();
            found = lra.propagate(db, trail);
        }
        h.add(found.size());
        ++r.steps;
        if (found.empty())
        {
            check_quiet();
            if (query && count % query == 0 && r.cls.empty()) check_bounds(true);
            nb = trail.model<bool>(Variable::boolean).num_vars();
            if (opt.prop_unassigned && r.cls.empty())
                for (int v = 0; v < nb; ++v)
                    if (assigned(v) && !before.count(v)) check_propagated(v);
            clean = true;
            return r.cls.empty();
        }
        int target = trail.decision_level();
        for (auto& c : found)
        {
            check_conflict(c);
            if (!r.cls.empty()) return false;
            int top = 0;
            for (auto l : c) top = std::max(top, *trail.decision_level(l.var()));
            target = std::min(target, top);
        }
        shape.add(found.size());
        if (order)
            for (auto& c : found) bump(c);
        if (target <= 0) { over = true; return false; }
        backtrack(choice < 0 ? target - 1 : choice % target);
        return false;
    }

    // what the heuristic hears when a conflict has been analysed
    void bump(Clause const& c)
    {
        ++bumps;
        if (c.empty()) return;
        dispatcher.on_conflict_resolved(db, trail, c);
        auto& learned = db.learn_clause(c);
        dispatcher.on_learned_clause(db, trail, learned);
        activity.add(c, lra);
        activity.add(c, lra);
        activity.learned();
        if (db.learned().size() > 64) db.learned().clear();
    }

    // the heuristic proposes a variable that has no value, or nothing when all have one
    std::optional<Variable> pick()
    {
        ++picks;
        auto var = order->pick(db, trail);
        std::optional<Variable> open;
        for (auto [type, model] : trail.models())
        {
            if (bool_order && type != Variable::boolean) continue;
            for (int i = 0; i < static_cast<int>(model->num_vars()) && !open; ++i)
                if (!model->is_defined(i)) open = Variable{i, type};
        }
        auto name = [](Variable v) { return std::string(v.type() == Variable::boolean ? "b" : "x") + std::to_string(v.ord()); };
        if (!var && open) bad("decision-skipped", "the heuristic reports no variable left but " + name(*open) + " has no value");
        if (var)
        {
            auto models = trail.models();
            bool ok = false;
            for (auto [type, model] : models)
                ok |= type == var->type() && var->ord() >= 0 && var->ord() < static_cast<int>(model->num_vars()) && !model->is_defined(var->ord());
            if (!ok) bad("decided-twice", "the heuristic proposes " + name(*var) + ", which has a value or does not exist");
            else if (rank) check_rank(*var);
        }
        return var;
    }

    static std::string name(Variable v) { return std::string(v.type() == Variable::boolean ? "b" : "x") + std::to_string(v.ord()); }

    // no open variable is notably more active than the proposed one
    void check_rank(Variable var)
    {
        auto all = trail.models();
        if (kind == 1 && opt.prop_rational && var.type() == Variable::rational && lra.is_effectively_decided(models(), var.ord())) { ++singles; return; }
        ++ranked;
        for (auto [type, model] : all)
        {
            if (bool_order && type != Variable::boolean) continue;
            for (int i = 0; i < static_cast<int>(model->num_vars()) && r.cls.empty(); ++i)
            {
                if (model->is_defined(i)) continue;
                Variable o{i, type};
                if (kind == 3 ? std::pair(o.type(), o.ord()) < std::pair(var.type(), var.ord()) : activity.above(activity.at(o), activity.at(var)))
                    bad("not-the-best", "the heuristic proposes " + name(var) + " although " + name(o) +
                        (kind == 3 ? " comes before it" : " is more active by a factor of " + std::to_string(static_cast<double>(activity.at(o) / std::max(activity.at(var), activity.inc * 1e-30l)))));
            }
        }
    }
    void check_order(Rng& rr)
    {
        auto all = trail.models();
        std::vector<Variable> v;
        for (auto [type, model] : all)
            if (!(bool_order && type != Variable::boolean))
                for (int i = 0; i < static_cast<int>(model->num_vars()); ++i) v.push_back(Variable{i, type});
        if (v.size() < 2) return;
        for (int i = 0; i < 10 && r.cls.empty(); ++i)
        {
            Variable a = v[rr.below(v.size())], b = v[rr.below(v.size())];
            ++compared;
            bool got = order->is_before(a, b);
            if (kind == 3)
            {
                if (got != (std::pair(a.type(), a.ord()) < std::pair(b.type(), b.ord()))) bad("order", name(a) + (got ? " is" : " is not") + " said to come before " + name(b));
            }
            else if (got ? activity.above(activity.at(b), activity.at(a)) : activity.above(activity.at(a), activity.at(b)))
                bad("order", name(a) + (got ? " is" : " is not") + " said to come before " + name(b) + " although it is " + (got ? "less" : "more") + " active");
        }
    }
    float score(Variable v) const
    {
        if (kind == 1) return static_cast<yaga::Generalized_vsids const&>(*order).score(v);
        return kind == 2 ? static_cast<yaga::Evsids const&>(*order).score(v.ord()) : 0;
    }
    // a new check: what was learned so far counts anew
    void init()
    {
        ++inits;
        restart();
        dispatcher.on_init(db, trail);
        activity.reset();
        for (auto* list : {&db.asserted(), &db.learned()})
            for (auto& c : *list) activity.add(c, lra);
        clean = false;
    }

    void restart()
    {
        // clauses assign again what they had assigned at level 0
        ++restarts;
        std::vector<std::pair<int, bool>> base;
        auto& model = trail.model<bool>(Variable::boolean);
        for (auto [var, _] : trail.assigned(0))
            if (var.type() == Variable::boolean) base.emplace_back(var.ord(), model.value(var.ord()));
        dispatcher.on_before_backtrack(db, trail, 0);
        trail.clear();
        dispatcher.on_restart(db, trail);
        for (auto [v, value] : base)
        {
            set(v, value);
            trail.propagate(Variable{v, Variable::boolean}, nullptr, 0);
        }
        clean = false;
    }

    void set(int v, bool value) { trail.model<bool>(Variable::boolean).set_value(v, value); }

    void exec(std::string const& op, std::vector<long> const& a)
    {
        auto A = [&](size_t i) { return i < a.size() ? a[i] : 0; };
        if (op == "atom")
        {
            std::vector<int> vars;
            std::vector<Rational> coef;
            bool open = true;
            for (size_t i = 3; i + 1 < a.size(); i += 2)
            {
                int x = static_cast<unsigned>(a[i]) % n;
                if (a[i + 1] == 0 || std::find(vars.begin(), vars.end(), x) != vars.end()) continue;
                vars.push_back(x);
                coef.push_back(Rational(static_cast<int>(a[i + 1])));
                open &= !known(x);
            }
            // an atom made during the search is evaluated at once; the simulated solver makes its own before
            if (vars.empty() || !open || a.size() < 3) return;
            long den = std::max(1l, A(2));
            static Order_predicate::Type const preds[] = {Order_predicate::eq, Order_predicate::lt, Order_predicate::leq};
            auto cons = lra.constraint(trail, vars, coef, preds[static_cast<unsigned>(A(0)) % 3], Rational(static_cast<int>(A(1)), static_cast<uint32_t>(den)));
            int v = cons.lit().var().ord();
            // the literal that stands for it must mean what was asked for
            atoms.erase(v);
            if (auto* at = atom(v))
            {
                Ref ref;
                std::vector<int> rv;
                std::vector<Ref::Lit> l;
                literal(ref, rv, v, !cons.lit().is_negation(), false, &l);
                LinExp e;
                for (size_t i = 0; i < vars.size(); ++i)
                {
                    if (static_cast<int>(rv.size()) <= vars[i]) rv.resize(vars[i] + 1, -1);
                    if (rv[vars[i]] < 0) rv[vars[i]] = ref.newReal();
                    e.add(LinExp::var(rv[vars[i]]), to_mpq(coef[i]));
                }
                mpq_class rhs(A(1), den);
                rhs.canonicalize();
                e.k -= rhs;
                int p = static_cast<unsigned>(A(0)) % 3;
                Ref::Lit w = p == 0 ? ref.eq(e) : ref.leq(e, p == 1);
                ref.addClause({l[0], w});
                ref.addClause({-l[0], -w});
                try { if (ref.solve()) bad("atom-meaning", "the atom made for this constraint means something else"); } catch (RefLimit&) {}
                (void)at;
            }
            else bad("atom-meaning", "no atom is known for this constraint");
            midway += trail.decision_level() > 0;
            if (std::find(mine.begin(), mine.end(), v) == mine.end()) mine.push_back(v);
        }
        else if (op == "decide" || op == "assert")
        {
            if (mine.empty()) return;
            if (op == "decide" && !settle(static_cast<int>(A(2)))) return;
            int v = -1;
            for (size_t i = 0; i < mine.size() && v < 0; ++i)
            {
                int u = mine[(static_cast<unsigned>(A(0)) + i) % mine.size()];
                if (!assigned(u)) v = u;
            }
            if (v < 0) return;
            if (op == "assert")
            {
                // clauses assign atoms only while some variable of theirs is open, or after the plugin
                // had its turn
                bool open = false;
                if (auto* a = atom(v)) for (auto& [x, q] : a->c) open |= !known(x);
                else open = true;
                if (!open) return;
                set(v, A(1) & 1);
                trail.propagate(Variable{v, Variable::boolean}, nullptr, trail.decision_level());
            }
            else
            {
                set(v, A(1) & 1);
                trail.decide(Variable{v, Variable::boolean});
            }
            clean = false;
            shape.add(v * 2 + (A(1) & 1));
        }
        else if (op == "value")
        {
            if (!settle(static_cast<int>(A(3)))) return;
            int x = -1;
            for (int i = 0; i < n && x < 0; ++i)
                if (!known((static_cast<unsigned>(A(0)) + i) % n)) x = (static_cast<unsigned>(A(0)) + i) % n;
            if (x < 0) return;
            auto R = ranges();
            if (A(2) > 0) hook.value = Rational(static_cast<int>(A(1)), static_cast<uint32_t>(A(2)));
            mpq_class asked = A(2) > 0 ? mpq_class(A(1), A(2)) : mpq_class(0);
            asked.canonicalize();
            int level = trail.decision_level();
            lra.decide(db, trail, Variable{x, Variable::rational});
            hook.value.reset();
            if (!known(x) || trail.decision_level() != level + 1) { bad("decision", "deciding variable " + std::to_string(x) + " gives it no value at a new level"); return; }
            mpq_class q = to_mpq(models().owned().value(x));
            if (!admits(R[x], q)) bad("decision", "variable " + std::to_string(x) + " is given the value " + q.get_str() + ", which is not admissible");
            clean = false;
            shape.add(x);
            h.add(q.get_str());
        }
        else if (op == "back")
        {
            if (trail.decision_level() == 0) return;
            backtrack(static_cast<int>(static_cast<unsigned>(A(0)) % trail.decision_level()));
        }
        else if (op == "restart") restart();
        else if (op == "init") init();
        else if (op == "order") { Rng rr(A(0)); if (order) check_order(rr); }
        else if (op == "plain")
        {
            int v = trail.model<bool>(Variable::boolean).num_vars();
            trail.resize(Variable::boolean, v + 1);
            mine.push_back(v);
            midway += trail.decision_level() > 0;
        }
        else if (op == "bump")
        {
            if (!order) return;
            int nb = trail.model<bool>(Variable::boolean).num_vars();
            if (nb == 0) return;
            Rng rr(A(1));
            int same = rr.below(3);
            for (long i = 0; i < std::min(A(0), 4000l); ++i)
            {
                std::vector<yaga::Literal> lits;
                int k = 1 + rr.below(4);
                for (int j = 0; j < k; ++j) lits.push_back(yaga::Literal{static_cast<int>(rr.below(same == 0 ? std::min(nb, 3) : nb))});
                float before = A(2) ? score(lits[0].var()) : 0;
                Clause c(lits);
                bump(c);
                if (A(2) && score(lits[0].var()) < before) { ++rescaled; break; }
            }
        }
        else if (op == "pick")
        {
            if (!order || !settle(static_cast<int>(A(3)))) return;
            auto var = pick();
            if (!var || !r.cls.empty()) return;
            h.add(var->ord() * 2 + var->type());
            shape.add(var->ord() * 2 + var->type());
            if (var->type() == Variable::boolean)
            {
                set(var->ord(), A(0) & 1);
                trail.decide(*var);
            }
            else
            {
                if (A(2) > 0) hook.value = Rational(static_cast<int>(A(1)), static_cast<uint32_t>(A(2)));
                lra.decide(db, trail, *var);
                hook.value.reset();
                if (!known(var->ord())) { bad("decision", "deciding variable " + std::to_string(var->ord()) + " gives it no value"); return; }
            }
            clean = false;
        }
        else if (op == "look") { if (query) check_bounds(clean); }
        else if (op == "settle") settle(static_cast<int>(A(0)));
    }
};

} // namespace

Case make_lra(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.scen = "plugin";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e));
    int n = 2 + r.below(thorough ? 9 : 7);
    c.cfg["vars"] = n;
    c.cfg["prop_bounds"] = r.chance(1, 4);
    c.cfg["prop_unassigned"] = r.chance(1, 4);
    c.cfg["prop_rational"] = r.chance(1, 2);
    c.cfg["all_conflicts"] = !r.chance(1, 5);
    int heur = prop == "C07" || prop == "C23" ? 1 + (r.chance(1, 4) ? 1 + r.below(2) : 0) : 0;
    c.cfg["order"] = heur;
    static int const often[] = {0, 1, 1, 3, 10};
    c.cfg["query"] = prop == "C12" ? often[1 + r.below(4)] : often[r.below(5)];
    bool derive = (prop == "C12" || prop == "C19") && r.chance(1, 4); // bounds derived from bounds of several variables
    if (derive) { c.cfg["prop_bounds"] = 1; n = 5 + r.below(4); c.cfg["vars"] = n; c.cfg["query"] = often[1 + r.below(4)]; }
    int width = derive ? 6 : 1 + r.below(4), spread = r.chance(1, 4) ? 40 : 3 + r.below(6), deep = r.below(3);
    std::string ops;
    auto op = [&](std::string const& o, std::vector<long> const& a) {
        ops += o;
        for (long v : a) ops += " " + std::to_string(v);
        ops += "\n";
    };
    auto atom = [&] {
        std::vector<long> a{static_cast<long>(r.chance(1, 5) ? 0 : 1 + r.below(2)), r.range(-spread, spread), r.chance(1, 5) ? 1 + static_cast<long>(r.below(6)) : 1};
        int k = 1 + r.below(width);
        if (k == 1 && width > 1 && r.chance(1, 2)) k = 2;
        if (derive) k = r.chance(1, 2) ? 1 : 3 + r.below(4);
        if (r.chance(1, 40)) { a[1] = r.range(2147483000, 2147483647) * (r.chance(1, 2) ? 1l : -1l); a[2] = 1 + r.below(100000); }
        bool unit = r.chance(1, 3);
        for (int i = 0; i < k; ++i)
        {
            long q = unit ? (r.chance(1, 2) ? 1 : -1) : r.range(-5, 5);
            if (r.chance(1, 60)) q = r.range(-2000000000, 2000000000);
            a.push_back(r.below(n));
            a.push_back(q ? q : 1);
        }
        op("atom", a);
    };
    if ((prop == "C12" || prop == "C19") && mix(seed, 0x4a) % 8 == 0)
    {
        // narrow intervals full of excluded values
        n = 1 + r.below(3);
        c.cfg["vars"] = n;
        std::vector<std::pair<long, long>> facts; // atom, how it is true
        long made = 0;
        auto fact = [&](std::vector<long> const& a, long how) { op("atom", a); facts.push_back({made++, how}); };
        for (int x = 0; x < n; ++x)
        {
            long k = r.range(-4, 3), wide = r.chance(1, 4) ? 2 : 1;
            long den = r.chance(1, 3) ? 1 + r.below(5) : 1;
            long s1 = r.below(2), s2 = r.below(2), flip = r.chance(1, 2) ? -1 : 1;
            // k/den < x (or <=), x < (k+wide)/den (or <=)
            fact({1 + s1, -flip * k, den, x, -flip}, flip > 0);
            fact({1 + s2, flip * (k + wide), den, x, flip}, flip > 0);
            long grid = 1l << (1 + r.below(5));
            if (r.chance(1, 4)) grid = 3 + r.below(8);
            int holes = r.below(thorough ? 24 : 12);
            for (int i = 0; i < holes; ++i)
            {
                // close to the middle, or to an end, or anywhere
                long j = r.chance(1, 3) ? grid * wide / 2 : r.chance(1, 2) ? (r.chance(1, 2) ? static_cast<long>(r.below(3)) : grid * wide - r.below(3)) : static_cast<long>(r.below(grid * wide + 1));
                fact({0, k * grid + j, den * grid, x, 1}, r.chance(1, 12));
                if (r.chance(1, 2)) grid = 1l << (1 + r.below(6));
            }
            if (n > 1) fact({0, r.range(-2, 2), 1 + static_cast<long>(r.below(4)), x, 1, (x + 1) % n, r.chance(1, 2) ? 1 : -1}, 0);
        }
        int steps = facts.size() + 5 + r.below(30);
        for (int i = 0; i < steps; ++i)
        {
            auto [id, how] = r.pick(facts);
            if (r.chance(1, 12)) how ^= 1;
            int w = r.below(12);
            if (w < 5) op("assert", {id, how});
            else if (w < 8) op("decide", {id, how, -1});
            else if (w == 8) op("value", {static_cast<long>(r.below(n)), 0, r.chance(1, 2) ? 1 : 0, -1});
            else if (w == 9) op("settle", {-1});
            else if (w == 10) op(r.chance(1, 3) ? "restart" : "back", {static_cast<long>(r.below(1000))});
            else op("look", {});
        }
        for (int i = 0; i < n; ++i) op("value", {i, 0, 0, -1});
        op("settle", {-1});
        c.text["ops"] = ops;
        return c;
    }
    int na = 4 + r.below(thorough ? 50 : 30), steps = 30 + r.below(thorough ? 300 : 120);
    for (int i = 0; i < na; ++i) atom();
    static int const values[] = {0, 1, -1, 2, 3, -3, 7, 10, 100, -50, 1000000};
    for (int i = 0; i < steps; ++i)
    {
        if (heur && r.chance(1, 2))
        {
            int k = r.below(24);
            if (prop == "C23" && r.chance(1, 5))
            {
                int w = r.below(6);
                if (w == 0 && r.chance(1, 3)) op("init", {});
                else if (w < 3) op("order", {static_cast<long>(r.below(1000000))});
                else if (w == 5 && r.chance(1, 2))
                {
                    // up to the moment when the scores are scaled down
                    op("bump", {3500, static_cast<long>(r.below(1000000)), 1});
                    op(r.chance(1, 3) ? "order" : "pick", {static_cast<long>(r.below(1000)), 0, 0, -1});
                }
                else op("bump", {static_cast<long>(r.chance(1, 5) ? r.below(3500) : r.below(60)), static_cast<long>(r.below(1000000))});
            }
            else if (k == 0) op("bump", {static_cast<long>(r.chance(1, 6) ? r.below(2500) : r.below(30)), static_cast<long>(r.below(1000000))});
            else if (k == 1) op("plain", {});
            else if (k == 2) op("back", {static_cast<long>(r.below(1000))});
            else op("pick", {static_cast<long>(r.below(2)), r.chance(1, 2) ? r.range(-spread, spread) : values[r.below(11)], r.chance(1, 3) ? 0 : 1 + static_cast<long>(r.below(3)),
                    r.chance(1, 2) ? -1 : static_cast<long>(r.below(1000))});
            continue;
        }
        int k = r.below(deep == 0 ? 20 : 24);
        if (derive && k >= 11 && k < 17) k = r.chance(2, 3) ? 0 : r.chance(1, 2) ? 17 : 18;
        if (derive && k >= 20 && r.chance(1, 2)) k = 17;
        if (k < 6) op("decide", {static_cast<long>(r.below(1000)), static_cast<long>(r.below(2)), r.chance(1, 2) ? -1 : static_cast<long>(r.below(1000))});
        else if (k < 11) op("assert", {static_cast<long>(r.below(1000)), static_cast<long>(r.below(2))});
        else if (k < 15 || k >= 20)
            op("value", {static_cast<long>(r.below(1000)), r.chance(1, 2) ? r.range(-spread, spread) : values[r.below(11)],
                r.chance(1, 3) ? 0 : r.chance(1, 2) ? 1 : 1 + static_cast<long>(r.below(7)), r.chance(1, 2) ? -1 : static_cast<long>(r.below(1000))});
        else if (k < 17) op("settle", {r.chance(1, 2) ? -1 : static_cast<long>(r.below(1000))});
        else if (k == 17) op("back", {static_cast<long>(r.below(1000))});
        else if (k == 18) { if (r.chance(1, 3)) op("restart", {}); else op("look", {}); }
        else atom();
    }
    // decide everything that is left
    if (heur) for (int i = 0; i < na + n + 10; ++i) op("pick", {static_cast<long>(r.below(2)), 0, 0, -1});
    op("settle", {-1});
    c.text["ops"] = ops;
    return c;
}

void exec_lra(Case const& c, Result& r, Logs&)
{
    Linear_arithmetic::Options o;
    o.prop_bounds = c.get("prop_bounds");
    o.prop_unassigned = c.get("prop_unassigned");
    o.prop_rational = c.get("prop_rational");
    o.return_all_conflicts = c.get("all_conflicts");
    Machine m(r, std::max<long>(1, c.get("vars")), o, static_cast<int>(c.get("order")));
    m.query = static_cast<int>(c.get("query"));
    m.rank = c.prop == "C23";
    yaga::sim::hooks = &m.hook;
    std::istringstream in(c.str("ops"));
    std::string line;
    uint64_t n = 0;
    while (std::getline(in, line) && r.cls.empty() && !m.over)
    {
        std::istringstream l(line);
        std::string op;
        std::vector<long> a;
        long v;
        l >> op;
        while (l >> v) a.push_back(v);
        m.count = ++n;
        m.where = "operation " + std::to_string(n) + " (" + line + ")";
        m.exec(op, a);
        m.shape.add(op);
    }
    yaga::sim::hooks = nullptr;
    r.st["operations"] += n;
    r.st["conflicts_checked"] += m.conflicts;
    r.st["quiet_states_checked"] += m.checks;
    if (m.order) { r.st["heuristic_choices_checked"] += m.picks; r.st["conflicts_told"] += m.bumps; r.st["variables_made_midway"] += m.midway; }
    if (m.rank) { r.st["choices_ranked"] += m.ranked; r.st["pairs_compared"] += m.compared; r.st["new_checks"] += m.inits; r.st["choices_at_rescaling"] += m.rescaled; r.st["single_value_choices"] += m.singles; }
    r.st["restarts"] += m.restarts;
    r.st["bound_states_checked"] += m.bound_checks;
    r.hash = m.h.h;
    r.shape = m.shape.h;
    r.nontrivial = m.conflicts > 0 || m.picks > 10;
    r.sample = c.str("ops").substr(0, 800);
}

} // namespace sim
