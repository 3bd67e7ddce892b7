// C20: restart policies driven by a simulated solver: a seeded list of events (conflicts with clauses
// over a trail, backtracks, restarts taken late, early or not at all, questions) is the history.
#include "scen.hpp"
#include <cmath>
#include <algorithm>

namespace sim {
namespace {

uint64_t luby_ref(uint64_t i)
{
    // 2^(k-1) if i = 2^k - 1, else the element at i - 2^(k-1) + 1 where 2^(k-1) <= i < 2^k - 1
    for (;;)
    {
        int k = 1;
        while ((1ull << k) - 1 < i) ++k;
        if ((1ull << k) - 1 == i) return 1ull << (k - 1);
        i = i - (1ull << (k - 1)) + 1;
    }
}

struct Policies {
    Result& r;
    yaga::Luby_restart luby;
    yaga::Glucose_restart glucose;
    yaga::Event_dispatcher dispatcher;
    Trail trail{dispatcher};
    Database db;
    std::vector<int> level; // my own record of the level of each variable, -1: none
    int vars;
    // reference
    int64_t unit = 0, since = 0, restarts = 0, least = 50;
    int slow_exp = 13, fast_exp = 5;
    double slow = 0, fast = 0, threshold = 1.3, err_slow = 0, err_fast = 0;
    uint64_t asked = 0, told = 0, close = 0, yes = 0;
    std::string where;
    Hash h, shape;

    Policies(Result& res, int n) : r(res), level(n, -1), vars(n)
    {
        dispatcher.add(&luby);
        dispatcher.add(&glucose);
        trail.set_model<bool>(Variable::boolean, n);
        // the length of the first interval
        yaga::Luby_restart first;
        Clause c;
        for (; !first.should_restart() && unit < 1000000; ++unit) first.on_learned_clause(db, trail, c);
        if (unit == 0 || unit >= 1000000) bad("interval", "the first interval has length " + std::to_string(unit));
    }
    void bad(std::string const& cls, std::string const& d) { r.fail(cls, where + ": " + d); }

    void ask()
    {
        ++asked;
        bool l = luby.should_restart(), want = since >= unit * static_cast<int64_t>(luby_ref(restarts + 1));
        if (l != want)
            bad("luby-interval", "after " + std::to_string(restarts) + " restarts and " + std::to_string(since) + " conflicts the Luby policy " + (l ? "asks" : "does not ask") +
                " for a restart; the interval is " + std::to_string(luby_ref(restarts + 1)) + " times " + std::to_string(unit));
        auto far = [](double got, double want, double err) { return std::fabs(got - want) > err + 1e-6; };
        if (far(glucose.slow(), slow, err_slow)) bad("average", "the slow average is " + std::to_string(glucose.slow()) + " instead of " + std::to_string(slow));
        if (far(glucose.fast(), fast, err_fast)) bad("average", "the fast average is " + std::to_string(glucose.fast()) + " instead of " + std::to_string(fast));
        bool g = glucose.should_restart();
        double margin = fast - threshold * slow, eps = err_fast + threshold * err_slow + 1e-5 * (1 + fast);
        if (since < least)
        {
            if (g) bad("glucose", "the adaptive policy asks for a restart after " + std::to_string(since) + " conflicts; the least is " + std::to_string(least));
        }
        else if (std::fabs(margin) <= eps && !(slow == 0 && fast == 0)) ++close;
        else if (g != (margin >= 0))
            bad("glucose", std::string("the adaptive policy ") + (g ? "asks" : "does not ask") + " for a restart; the averages are " + std::to_string(fast) + " and " + std::to_string(slow));
        yes += l + g;
        h.add(l * 2 + g);
        shape.add(l * 2 + g);
    }

    void learn(Rng& rr, int size)
    {
        std::vector<int> on;
        for (int v = 0; v < vars; ++v) if (level[v] >= 0) on.push_back(v);
        if (on.empty()) return;
        std::vector<yaga::Literal> lits;
        std::set<int> levels;
        for (int i = 0; i < size && !on.empty(); ++i)
        {
            size_t k = rr.below(on.size());
            int v = on[k];
            on.erase(on.begin() + k);
            lits.push_back(rr.chance(1, 2) ? yaga::Literal{v} : ~yaga::Literal{v});
            levels.insert(level[v]);
        }
        Clause c(lits);
        ++told;
        dispatcher.on_conflict_resolved(db, trail, c);
        dispatcher.on_learned_clause(db, trail, c);
        ++since;
        double lbd = levels.size(), as = std::ldexp(1.0, -slow_exp), af = std::ldexp(1.0, -fast_exp);
        slow += (lbd - slow) * as;
        fast += (lbd - fast) * af;
        // what rounding to single precision may have added
        err_slow = err_slow * (1 - as) + (slow + lbd * as) * 2.4e-7;
        err_fast = err_fast * (1 - af) + (fast + lbd * af) * 2.4e-7;
    }

    int free_var() const
    {
        for (int v = 0; v < vars; ++v) if (level[v] < 0) return v;
        return -1;
    }

    void exec(std::string const& op, std::vector<long> const& a)
    {
        auto A = [&](size_t i) { return i < a.size() ? a[i] : 0; };
        if (op == "decide" || op == "prop")
        {
            int v = free_var();
            if (v < 0) return;
            trail.model<bool>(Variable::boolean).set_value(v, A(0) & 1);
            if (op == "decide") { trail.decide(Variable{v, Variable::boolean}); level[v] = trail.decision_level(); }
            else
            {
                level[v] = static_cast<int>(static_cast<unsigned>(A(1)) % (trail.decision_level() + 1));
                trail.propagate(Variable{v, Variable::boolean}, nullptr, level[v]);
            }
        }
        else if (op == "learn")
        {
            Rng rr(A(1));
            learn(rr, 1 + static_cast<int>(static_cast<unsigned>(A(0)) % 40));
        }
        else if (op == "burst")
        {
            Rng rr(A(1));
            int width = 1 + static_cast<int>(static_cast<unsigned>(A(2)) % 40);
            for (long i = 0; i < std::min(A(0), 20000l) && r.cls.empty(); ++i)
            {
                learn(rr, 1 + static_cast<int>(rr.below(width)));
                if (A(3)) ask();
            }
        }
        else if (op == "due")
        {
            // up to the last conflict before the Luby policy is due, then one more
            Rng rr(A(0));
            int64_t left = unit * static_cast<int64_t>(luby_ref(restarts + 1)) - since;
            if (left > 40000 || left < 1) return;
            for (; left > 1; --left) learn(rr, 1 + static_cast<int>(rr.below(4)));
            ask();
            learn(rr, 2);
            ask();
        }
        else if (op == "back")
        {
            if (trail.decision_level() == 0) return;
            int to = static_cast<int>(static_cast<unsigned>(A(0)) % trail.decision_level());
            dispatcher.on_before_backtrack(db, trail, to);
            trail.backtrack(to);
            for (auto& l : level) if (l > to) l = -1;
        }
        else if (op == "restart")
        {
            dispatcher.on_before_backtrack(db, trail, 0);
            trail.clear();
            for (auto& l : level) l = -1;
            dispatcher.on_restart(db, trail);
            ++restarts;
            since = 0;
        }
        else if (op == "ask") ask();
        else if (op == "element")
        {
            uint64_t i = std::max(1l, A(0));
            if (i > 2000000000ull) return;
            auto got = luby.luby(static_cast<uint32_t>(i));
            if (static_cast<uint64_t>(got) != luby_ref(i)) bad("luby-element", "element " + std::to_string(i) + " of the sequence is " + std::to_string(got) + " instead of " + std::to_string(luby_ref(i)));
        }
    }
};

} // namespace

Case make_policy(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.scen = "policy";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e));
    c.cfg["vars"] = 4 + r.below(40);
    c.cfg["own"] = r.chance(1, 2); // parameters of its own
    c.cfg["slow"] = 1 + r.below(14);
    c.cfg["fast"] = 1 + r.below(8);
    c.cfg["least"] = r.below(5) ? r.below(60) : 0;
    c.cfg["threshold"] = 1000 + r.below(1000);
    std::string ops;
    auto op = [&](std::string const& o, std::vector<long> const& a) {
        ops += o;
        for (long v : a) ops += " " + std::to_string(v);
        ops += "\n";
    };
    auto big = [&] { return static_cast<long>(r.below(1000000000)); };
    int steps = 20 + r.below(thorough ? 400 : 120), style = r.below(3);
    bool waves = mix(seed, 0x3a) % 3 == 0;
    for (int i = 0; i < steps; ++i)
    {
        if (waves && r.chance(1, 8))
        {
            // a long calm stretch, a restart taken late, then worse conflicts at once
            for (int j = 1 + r.below(3); j > 0; --j) op("decide", {0});
            op("burst", {static_cast<long>(r.below(300)), big(), 1 + static_cast<long>(r.below(3)), 0});
            for (int j = r.below(4) ? 1 : 2; j > 0; --j) op("restart", {});
            for (int j = 4 + r.below(12); j > 0; --j) op("decide", {0});
            for (int j = 1 + r.below(70); j > 0; --j) { op("learn", {20 + static_cast<long>(r.below(20)), big()}); op("ask", {}); }
            continue;
        }
        int k = r.below(24);
        if (k < 5) op("decide", {static_cast<long>(r.below(2))});
        else if (k < 9) op("prop", {static_cast<long>(r.below(2)), big()});
        else if (k < 14) { op("learn", {static_cast<long>(r.below(1 + r.below(40))), big()}); if (r.chance(2, 3)) op("ask", {}); }
        else if (k < 16) op("ask", {});
        else if (k < 18) op("burst", {static_cast<long>(r.below(style == 2 ? 3000 : 100)), big(), static_cast<long>(r.below(40)), static_cast<long>(r.chance(1, 3))});
        else if (k < 20) op("back", {big()});
        else if (k == 20) { for (int j = 1 + r.below(style == 1 ? 40 : 3); j > 0; --j) { op("restart", {}); if (r.chance(1, 2)) { op("decide", {0}); op("ask", {}); } } }
        else if (k == 21) op("due", {big()});
        else op("element", {r.chance(1, 2) ? 1 + static_cast<long>(r.below(5000)) : r.chance(1, 2) ? (1l << r.below(31)) + r.range(-2, 2) : 1 + static_cast<long>(r.below(2000000000))});
    }
    op("ask", {});
    c.text["ops"] = ops;
    return c;
}

void exec_policy(Case const& c, Result& r, Logs&)
{
    Policies p(r, std::max<long>(1, c.get("vars")));
    if (c.get("own"))
    {
        p.slow_exp = std::max<long>(1, c.get("slow"));
        p.fast_exp = std::max<long>(1, c.get("fast"));
        p.least = c.get("least");
        float t = static_cast<float>(std::max<long>(1000, c.get("threshold"))) / 1000.f;
        p.threshold = t;
        p.glucose.set_slow_exp(p.slow_exp);
        p.glucose.set_fast_exp(p.fast_exp);
        p.glucose.set_min_conflicts(static_cast<int>(p.least));
        p.glucose.set_threshold(t);
    }
    std::istringstream in(c.str("ops"));
    std::string line;
    uint64_t n = 0;
    while (std::getline(in, line) && r.cls.empty())
    {
        std::istringstream l(line);
        std::string op;
        std::vector<long> a;
        long v;
        l >> op;
        while (l >> v) a.push_back(v);
        p.where = "operation " + std::to_string(++n) + " (" + line + ")";
        p.exec(op, a);
        p.shape.add(op);
        ++r.steps;
    }
    r.st["operations"] += n;
    r.st["conflicts_told"] += p.told;
    r.st["restarts"] += p.restarts;
    r.st["questions_checked"] += p.asked;
    r.st["questions_too_close_to_call"] += p.close;
    r.st["restarts_asked_for"] += p.yes;
    r.hash = p.h.h;
    r.shape = p.shape.h;
    r.nontrivial = p.restarts > 0 && p.asked > 5;
    r.sample = c.str("ops").substr(0, 800);
}

} // namespace sim
