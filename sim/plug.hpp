// The simulator's side of the seams: it owns every choice the solver takes and sees every event.
#pragma once
#include "case.hpp"
#include "ref.hpp"

#include "Bool_theory.h"
#include "Evsids.h"
#include "First_unassigned.h"
#include "Generalized_vsids.h"
#include "Linear_arithmetic.h"
#include "Options.h"
#include "Restart.h"
#include "Sim_hooks.h"
#include "Solver.h"
#include "Term_manager.h"
#include "Theory_combination.h"
#include "Uninterpreted_functions.h"
#include "Variable_order.h"
#include "Yaga.h"

namespace sim {

using yaga::Clause;
using yaga::Database;
using yaga::Literal;
using yaga::Trail;
using yaga::Variable;

enum Invariant : unsigned { I_FACTS = 1, I_STATE = 2, I_COMPLETE = 4, I_KNOW = 8, I_BOUNDS = 16, I_OPTIONS = 32 };

mpq_class to_mpq(yaga::Rational const& r);
yaga::Rational to_rational(mpq_class const& q);

struct Limit : std::exception { // a run was cut off by its step limit: undecided
    char const* what() const noexcept override { return "step limit"; }
};

// Reference view of the solver's clause database: atoms, asserted clauses, functions.
class Theory_ref {
public:
    Ref ref;
    bool gave_up = false;
    uint64_t checks = 0;
    void reset(yaga::Yaga* y, yaga::Linear_arithmetic* l) { yaga_ = y; lra = l; }
    Ref::Lit lit(Literal l)
    {
        int v = l.var().ord();
        auto it = bools.find(v);
        if (it == bools.end()) it = bools.emplace(v, make(v)).first;
        return l.is_negation() ? -it->second : it->second;
    }
    LinExp real(int ord)
    {
        auto it = reals.find(ord);
        if (it == reals.end()) it = reals.emplace(ord, ref.newReal()).first;
        return LinExp::var(it->second);
    }
    void sync(Database& db);
    // is `c` a consequence of what is asserted (and of arithmetic and congruence)?
    bool implied(Clause const& c)
    {
        std::vector<Ref::Lit> as;
        for (auto l : c) as.push_back(-lit(l));
        ++checks;
        return !ref.solve(as);
    }

private:
    yaga::Yaga* yaga_ = nullptr;
    yaga::Linear_arithmetic* lra = nullptr;
    std::map<int, Ref::Lit> bools;
    std::map<int, int> reals;
    size_t next_clause = 0;
    std::set<std::pair<int, int>> app_done;

    Ref::Lit make(int v);
    void sync_apps();
    LinExp term_real(yaga::terms::term_t t);
    Ref::Lit term_bool(yaga::terms::term_t t);
};

struct Plug_cfg {
    bool intrude = true;    // replace order and restart policy by simulated ones wrapping the real ones
    int order = 0;          // 0 the real one of the logic, 1 First_unassigned
    int p_var = 0, p_value = 0, p_phase = 0, p_restart = 0, p_split = 0; // permille
    bool lra_all_conflicts = true, lra_prop_unassigned = false;
    bool set_lra = false;   // touch LRA options at all
    bool prop_bounds = false, prop_rational = false;
    unsigned inv = 0;
    long step_limit = 4000;
    long hostile = 1l << 40; // events after which only defaults are taken
    bool read_plug(Case const& c);
};

class Session final : public yaga::sim::Hooks {
public:
    Session(Plug_cfg c, Sched s, Result& r) : cfg(c), sched(std::move(s)), res(r) {}
    Plug_cfg cfg;
    Sched sched;
    Result& res;
    Hash events;
    Hash shape;
    yaga::Yaga* yaga = nullptr;
    yaga::Linear_arithmetic* lra = nullptr;
    yaga::Bool_theory* boolean = nullptr;
    Theory_ref facts;
    long steps = 0, decisions = 0, conflicts = 0, restarts = 0, restarts_forced = 0;
    long calm_steps = 0; // steps since the disturbances stopped
    long step_at_calm = 0;
    bool limited = false;
    std::function<void()> on_step; // e.g. switch to another fiber
    uint64_t derived_checks = 0;
    uint64_t state_checks = 0, bound_checks = 0, know_checks = 0, value_overrides_legal = 0;

    // what the options and counters must show (I_OPTIONS)
    struct Counters { long decisions = 0, learned = 0, restarts = 0, backtracks = 0; };
    std::vector<Counters> counters; // one per check
    yaga::Phase phase_now = yaga::Phase::positive;
    uint64_t phase_checks = 0, kept_values = 0;

    // ----- yaga::sim::Hooks
    void on_set_logic(yaga::Initializer const&, yaga::Yaga&, yaga::Options const&) override;
    void on_suggest_value(int lra_var_ord, yaga::Rational& value) override;

    // ----- from the simulated order and restart policy
    void at_init(Database&, Trail&);
    std::optional<Variable> at_pick(Database&, Trail&, yaga::Variable_order&);
    void at_learned(Database&, Trail&, Clause const&);
    void at_backtrack(Database&, Trail&, int level);
    void at_restart(Database&, Trail&);
    bool at_should_restart();
    bool at_is_before(bool inner);

    void violation(std::string const& cls, std::string const& detail)
    {
        res.fail(cls, detail);
        throw Abandon();
    }
    bool calm() const { return steps >= cfg.hostile; }
    void attach(yaga::Solver& solver); // for sessions without the facade

private:
    Trail* trail_ = nullptr;
    std::vector<std::vector<int>> asserted_copy;
    std::map<std::vector<int>, int> learned_ever;
    std::deque<std::vector<int>> learned_copy;
    std::map<int, bool> last_value;  // of Boolean variables, when last unassigned
    std::set<int> value_unclear;     // unassigned by a restart at level 0
    std::map<int, yaga::Rational> last_rational;
    std::vector<int> base_before;
    std::optional<Variable> pending; // proposed, not seen assigned yet
    std::optional<bool> pending_value;
    std::optional<yaga::Rational> pending_rational;

    void check_pending(Trail&);
    void forget();
    void step();
    int permille(int p) const { return calm() ? 0 : p; }
    void check_state(Database&, Trail&);
    void check_knowledge(Database&, Trail&, bool after_restart);
    void check_bounds(Database&, Trail&);
    static std::vector<int> key(Clause const& c);
};

std::string show(Clause const& c);

class Sim_order final : public yaga::Variable_order {
public:
    Sim_order(Session& s, std::unique_ptr<yaga::Variable_order> in) : session(s), inner(std::move(in)) {}
    void on_init(Database& db, Trail& t) override { inner->on_init(db, t); session.at_init(db, t); }
    void on_variable_resize(Variable::Type type, int n) override { inner->on_variable_resize(type, n); }
    void on_before_backtrack(Database& db, Trail& t, int l) override { session.at_backtrack(db, t, l); inner->on_before_backtrack(db, t, l); }
    void on_learned_clause(Database& db, Trail& t, Clause const& c) override { session.at_learned(db, t, c); inner->on_learned_clause(db, t, c); }
    void on_conflict_resolved(Database& db, Trail& t, Clause const& c) override { inner->on_conflict_resolved(db, t, c); }
    void on_restart(Database& db, Trail& t) override { inner->on_restart(db, t); session.at_restart(db, t); }
    std::optional<Variable> pick(Database& db, Trail& t) override { return session.at_pick(db, t, *inner); }
    bool is_before(Variable a, Variable b) const override { return session.at_is_before(inner->is_before(a, b)); }
private:
    Session& session;
    std::unique_ptr<yaga::Variable_order> inner;
};

class Sim_restart final : public yaga::Restart {
public:
    explicit Sim_restart(Session& s) : session(s) {}
    void on_init(Database& db, Trail& t) override { inner.on_init(db, t); }
    void on_variable_resize(Variable::Type type, int n) override { inner.on_variable_resize(type, n); }
    void on_before_backtrack(Database& db, Trail& t, int l) override { inner.on_before_backtrack(db, t, l); }
    void on_learned_clause(Database& db, Trail& t, Clause const& c) override { inner.on_learned_clause(db, t, c); }
    void on_conflict_resolved(Database& db, Trail& t, Clause const& c) override { inner.on_conflict_resolved(db, t, c); }
    void on_restart(Database& db, Trail& t) override { inner.on_restart(db, t); }
    bool should_restart() const override
    {
        bool real = inner.should_restart();
        return session.at_should_restart() || real;
    }
private:
    Session& session;
    yaga::Glucose_restart inner;
};

} // namespace sim
