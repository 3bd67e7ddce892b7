// C27: a program that uses the library: a seeded list of calls on one Yaga object (variables, clauses, linear constraints, calls
// that must be refused, checks, a fresh start) under a simulated search.
#include "scen.hpp"
#include <algorithm>

namespace sim {
namespace {

using yaga::Order_predicate;
using yaga::Rational;

struct Con { std::vector<std::pair<int, mpq_class>> c; mpq_class rhs; int pred = 0; }; // pred: 0 =, 1 <, 2 <=

// what the program has said about the current problem
struct Problem {
    int logic = -1, bools = 0, reals = 0;
    std::vector<Literal> lits;                       // literals the program was given
    std::vector<std::optional<Con>> means;           // and the constraint each stands for, if any
    std::vector<std::vector<int>> clauses;           // +-(index + 1)
    bool checked = false;
};

struct Client {
    Case const& c;
    Result& r;
    Session& ses;
    Logs& logs;
    yaga::terms::Term_manager tm;
    std::unordered_map<yaga::terms::term_t, int> reals;
    std::unordered_map<yaga::terms::term_t, Literal> bools;
    std::unique_ptr<yaga::Yaga> lib;
    Problem p;
    Hash h;
    bool limited = false;

    Client(Case const& k, Result& res, Session& s, Logs& l) : c(k), r(res), ses(s), logs(l) {}

    void start(int logic)
    {
        yaga::sim::hooks = &ses;
        if (!lib) lib = std::make_unique<yaga::Yaga>(tm, std::ranges::ref_view(reals), std::ranges::ref_view(bools));
        else { lib->init(); ++r.st["fresh_starts"]; }
        ses.steps = 0;
        auto o = read_options(c);
        if (logic == 0) lib->set_logic(yaga::logic::propositional, o);
        else if (logic == 1) lib->set_logic(yaga::logic::qf_lra, o);
        else lib->set_logic(yaga::logic::qf_uflra, o);
        yaga::sim::hooks = nullptr;
        p = Problem();
        p.logic = logic;
        if (lib->has_uf() != (logic == 2)) r.fail("logic", "has_uf() does not tell whether the logic has functions");
        auto& t = lib->solver().trail();
        if (t.model<bool>(Variable::boolean).num_vars() || (logic && t.model<Rational>(Variable::rational).num_vars()))
            r.fail("not-fresh", "there are variables right after the logic is set");
        if (!lib->solver().db().asserted().empty() || !lib->solver().db().learned().empty())
            r.fail("not-fresh", "there are clauses right after the logic is set");
    }
    Literal lit(int i) const { return i > 0 ? p.lits[i - 1] : ~p.lits[-i - 1]; }
    void add(Literal l, std::optional<Con> k)
    {
        p.lits.push_back(l);
        p.means.push_back(std::move(k));
    }

    Literal ask(Con const& k)
    {
        std::vector<int> vars;
        std::vector<Rational> coef;
        for (auto& [x, q] : k.c) { vars.push_back(x); coef.push_back(to_rational(q)); }
        static Order_predicate::Type const preds[] = {Order_predicate::eq, Order_predicate::lt, Order_predicate::leq};
        return lib->linear_constraint(vars, coef, preds[k.pred], to_rational(k.rhs));
    }

    void constraint(std::vector<long> const& a)
    {
        Con k;
        k.pred = static_cast<unsigned long>(a[0]) % 3;
        k.rhs = mpq_class(a[1], std::max(1l, a[2]));
        k.rhs.canonicalize();
        std::set<int> seen;
        for (size_t i = 3; i + 2 < a.size() && p.reals; i += 3)
        {
            int x = static_cast<unsigned long>(a[i]) % p.reals;
            if (!seen.insert(x).second) continue;
            mpq_class q(a[i + 1], std::max(1l, a[i + 2]));
            q.canonicalize();
            k.c.emplace_back(x, q);
        }
        bool vars = std::any_of(k.c.begin(), k.c.end(), [](auto& t) { return t.second != 0; });
        if (p.logic) ++r.st[vars ? "constraints" : "constraints_without_variables"];
        Literal l;
        try { l = ask(k); }
        catch (std::logic_error& e)
        {
            if (p.logic != 0) r.fail("refused", std::string("a constraint over known variables is refused: ") + e.what());
            else ++r.st["fault.call_refused"];
            return;
        }
        if (p.logic == 0) { r.fail("accepted", "a linear constraint is accepted in propositional logic"); return; }
        h.add(l.var().ord() * 2 + l.is_negation());
        add(l, k);
    }

    // the same constraint once more, said in another way
    void again(long which, long how, long num, long den)
    {
        std::vector<int> cons;
        for (size_t i = 0; i < p.means.size(); ++i) if (p.means[i]) cons.push_back(i);
        if (cons.empty()) return;
        int i = cons[static_cast<unsigned long>(which) % cons.size()];
        Con k = *p.means[i];
        mpq_class f(std::max(1l, std::labs(num)), std::max(1l, den));
        f.canonicalize();
        bool neg = (how & 1) && k.pred != 0;
        if (neg) { k.pred = 3 - k.pred; f = -f; }             // not (e <= c): -e < -c
        else if ((how & 1)) f = -f;                           // e = c: -e = -c
        for (auto& [x, q] : k.c) q *= f;
        k.rhs *= f;
        if (how & 2) std::reverse(k.c.begin(), k.c.end());
        if ((how & 4) && k.c.size() > 2) std::rotate(k.c.begin(), k.c.begin() + 1, k.c.end());
        if (how & 8)
            for (int x = 0; x < p.reals; ++x)
                if (std::none_of(k.c.begin(), k.c.end(), [&](auto& t) { return t.first == x; })) { k.c.insert(k.c.begin(), {x, mpq_class(0)}); break; }
        ++r.st["constraints_again"];
        Literal want = neg ? ~p.lits[i] : p.lits[i];
        Literal got = ask(k);
        if (got != want) r.fail("not-reused", "a constraint that exists already is given another literal when its terms are reordered or multiplied");
        add(got, k);
    }

    // another constraint that looks much like an existing one: two coefficients exchanged, another sign, right-hand side or predicate
    void alike(long which, long how, long x, long y)
    {
        std::vector<int> cons;
        for (size_t i = 0; i < p.means.size(); ++i) if (p.means[i] && !p.means[i]->c.empty()) cons.push_back(i);
        if (cons.empty()) return;
        Con k = *p.means[cons[static_cast<unsigned long>(which) % cons.size()]];
        auto& a = k.c[static_cast<unsigned long>(x) % k.c.size()];
        auto& b = k.c[static_cast<unsigned long>(y) % k.c.size()];
        if (how % 5 < 2) std::swap(a.second, b.second);
        else if (how % 5 == 2) a.second = -a.second;
        else if (how % 5 == 3) k.rhs = -k.rhs;
        else k.pred = (k.pred + 1 + y % 2) % 3;
        ++r.st["constraints_alike"];
        Literal l = ask(k);
        h.add(l.var().ord() * 2 + l.is_negation());
        add(l, k);
    }

    void refused(long kind)
    {
        std::vector<Rational> one{Rational(1)};
        int bad = kind % 3 == 0 ? p.reals : kind % 3 == 1 ? -1 : p.reals + 1 + static_cast<int>(kind % 97);
        std::vector<int> x{bad};
        if (p.reals && kind % 2) { x.insert(x.begin(), 0); one.push_back(Rational(1)); }
        auto before = lib->solver().trail().model<bool>(Variable::boolean).num_vars();
        try
        {
            lib->linear_constraint(x, one, Order_predicate::leq, Rational(1));
            r.fail("accepted", "a linear constraint over a variable that does not exist is accepted");
        }
        catch (std::logic_error&) { ++r.st["fault.call_refused"]; }
        if (lib->solver().trail().model<bool>(Variable::boolean).num_vars() != before) r.fail("refused-effect", "a refused constraint leaves a variable behind");
    }

    void clause(std::vector<long> const& a)
    {
        if (p.lits.empty() || a.empty()) return;
        std::vector<int> k;
        for (auto v : a)
        {
            int i = static_cast<unsigned long>(std::labs(v)) % p.lits.size() + 1;
            k.push_back(v < 0 ? -i : i);
        }
        // one variable once: neither repeated literals nor a literal and its negation
        std::vector<int> out;
        std::set<int> seen;
        for (int i : k) if (seen.insert(lit(i).var().ord()).second) out.push_back(i);
        if (out.size() == 1) lib->assert_clause(lit(out[0]));
        else if (out.size() == 2) lib->assert_clause(lit(out[0]), lit(out[1]));
        else if (out.size() == 3) lib->assert_clause(lit(out[0]), lit(out[1]), lit(out[2]));
        else
        {
            Clause cl;
            for (int i : out) cl.push_back(lit(i));
            lib->assert_clause(cl);
        }
        p.clauses.push_back(out);
    }

    // ------------------------------------------------------------------ the answer

    int truth()
    {
        Ref ref;
        ref.work_limit = c.get("ref_limit", 4000000);
        std::map<int, Ref::Lit> b;
        std::vector<int> rv(p.reals);
        for (auto& v : rv) v = ref.newReal();
        std::vector<Ref::Lit> l;
        for (size_t i = 0; i < p.lits.size(); ++i)
        {
            if (!p.means[i])
            {
                int v = p.lits[i].var().ord();
                if (!b.count(v)) b[v] = ref.newBool() + 1;
                l.push_back(b[v]);
                continue;
            }
            LinExp e;
            for (auto& [x, q] : p.means[i]->c) e.add(LinExp::var(rv[x]), q);
            e.k -= p.means[i]->rhs;
            l.push_back(p.means[i]->pred == 0 ? ref.eq(e) : ref.leq(e, p.means[i]->pred == 1));
        }
        try
        {
            for (auto& k : p.clauses)
            {
                std::vector<Ref::Lit> cl;
                for (int i : k) cl.push_back(i > 0 ? l[i - 1] : -l[-i - 1]);
                ref.addClause(cl);
            }
            return ref.solve();
        }
        catch (RefLimit&) { return -1; }
    }

    void check()
    {
        if (p.checked) return;
        p.checked = true;
        yaga::Solver::Result res;
        yaga::sim::hooks = &ses;
        try { res = lib->solver().check(); }
        catch (Limit&) { limited = true; ses.limited = true; yaga::sim::hooks = nullptr; throw; }
        catch (...) { yaga::sim::hooks = nullptr; throw; }
        yaga::sim::hooks = nullptr;
        bool sat = res == yaga::Solver::Result::sat;
        h.add(sat);
        int t = truth();
        if (t < 0) ++r.st["truth_unknown"];
        else
        {
            ++r.st[t ? "checks_sat" : "checks_unsat"];
            if (t != sat) { r.fail(sat ? "wrong-sat" : "wrong-unsat", std::string("the answer is ") + (sat ? "sat" : "unsat") + " but the problem is " + (t ? "satisfiable" : "unsatisfiable")); return; }
        }
        if (!sat) return;
        auto& bm = lib->solver().trail().model<bool>(Variable::boolean);
        std::vector<mpq_class> val(p.reals);
        if (p.logic)
        {
            auto& rm = lib->solver().trail().model<Rational>(Variable::rational);
            for (int i = 0; i < p.reals; ++i)
            {
                if (!rm.is_defined(i)) { r.fail("bad-model", "rational variable " + std::to_string(i) + " has no value"); return; }
                val[i] = to_mpq(rm.value(i));
            }
        }
        auto value = [&](Literal l) { return bm.value(l.var().ord()) != l.is_negation(); };
        for (size_t i = 0; i < p.lits.size(); ++i)
        {
            int v = p.lits[i].var().ord();
            if (!bm.is_defined(v)) { r.fail("bad-model", "literal " + std::to_string(i) + " has no value"); return; }
            if (!p.means[i]) continue;
            mpq_class s = -p.means[i]->rhs;
            for (auto& [x, q] : p.means[i]->c) s += q * val[x];
            bool want = p.means[i]->pred == 0 ? s == 0 : p.means[i]->pred == 1 ? s < 0 : s <= 0;
            if (value(p.lits[i]) != want) { r.fail("bad-model", "the literal of a constraint is " + std::string(want ? "false" : "true") + " although the values of its variables make the constraint " + (want ? "true" : "false")); return; }
        }
        for (auto& k : p.clauses)
            if (std::none_of(k.begin(), k.end(), [&](int i) { return value(lit(i)); })) { r.fail("bad-model", "the assignment falsifies a clause"); return; }
        ++r.st["models"];
    }

    void run()
    {
        std::istringstream in(c.str("ops"));
        std::string line;
        while (std::getline(in, line) && r.cls.empty())
        {
            std::istringstream s(line);
            std::string op;
            s >> op;
            std::vector<long> a;
            long v;
            while (s >> v) a.push_back(v);
            if (op == "start") { start(static_cast<unsigned long>(a.empty() ? 0 : a[0]) % 3); continue; }
            if (!lib || p.logic < 0 || p.checked) continue;
            if (op == "bool")
            {
                bool as_literal = !a.empty() && a[0];
                Literal l = as_literal ? lib->make_bool() : Literal{lib->make(Variable::boolean).ord()};
                for (auto o : p.lits) if (o.var() == l.var()) r.fail("variable-reused", "a new Boolean variable is one that exists already");
                if (l.is_negation()) r.fail("variable-reused", "a new Boolean variable is a negated literal");
                add(l, {});
                ++p.bools;
            }
            else if (op == "real" && p.logic)
            {
                auto x = lib->make(Variable::rational);
                if (x.type() != Variable::rational || x.ord() != p.reals) r.fail("variable-reused", "a new rational variable is not the next one");
                ++p.reals;
            }
            else if (op == "con" && a.size() >= 3) constraint(a);
            else if (op == "again" && a.size() >= 4 && p.logic) again(a[0], a[1], a[2], a[3]);
            else if (op == "alike" && a.size() >= 4 && p.logic) alike(a[0], a[1], a[2], a[3]);
            else if (op == "refused" && !a.empty()) refused(a[0]);
            else if (op == "clause") clause(a);
            else if (op == "check") check();
        }
    }
};

} // namespace

Case make_lib(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.seed = seed;
    c.scen = "library";
    Rng r(mix(seed, 0x11b)), g(mix(seed, 0x11c));
    random_plug(c, r);
    random_options(c, r);
    c.cfg["step_limit"] = 4000;
    std::string t;
    auto op = [&](std::string const& n, std::vector<long> const& a) {
        t += n;
        for (auto v : a) t += " " + std::to_string(v);
        t += "\n";
    };
    int problems = 1 + g.below(thorough ? 5 : 3);
    bool wide = g.chance(1, 4);
    for (int k = 0; k < problems; ++k)
    {
        int logic = g.chance(1, 6) ? 0 : 1 + g.below(2);
        op("start", {logic});
        int n = 6 + g.below(g.chance(1, 4) ? 60 : 30), reals = logic ? 1 + g.below(g.chance(1, 3) ? 8 : 5) : 0, lits = 0;
        int first = g.below(4);
        for (int i = 0; i < first; ++i, ++lits) op("bool", {static_cast<long>(g.below(2))});
        for (int i = 0; i < reals; ++i) op("real", {});
        int dense = 1 + g.below(3), units = g.chance(1, 6) ? 6 : 60, eqs = g.chance(1, 3) ? 3 : 8;
        bool easy = g.chance(1, 3);
        int zero = g.chance(1, 3) ? 3 : 40; // one coefficient in so many is zero
        auto coef = [&]() -> std::pair<long, long> {
            if (g.chance(1, zero)) return {0, 1};
            if (wide && g.chance(1, 4)) return {static_cast<long>(g.range(-2000000, 2000000)) * 1000003, 1 + static_cast<long>(g.below(1000000))};
            return {g.chance(1, 3) ? (g.chance(1, 2) ? 1 : -1) : g.range(-7, 7), g.chance(1, 4) ? 1 + g.below(6) : 1};
        };
        for (int i = 0; i < n; ++i)
        {
            int what = g.below(20);
            if ((what < 8 && (logic || g.chance(1, 20))) || (!lits && logic))
            {
                auto [rn, rd] = coef();
                std::vector<long> a{g.chance(1, eqs) ? 0 : 1 + static_cast<long>(g.below(2)), g.chance(1, 4) ? 0 : rn, rd};
                int terms = g.chance(1, 20) ? 0 : 1 + g.below(g.chance(1, 4) ? 9 : 3);
                for (int j = 0; j < terms; ++j)
                {
                    auto [num, den] = coef();
                    a.insert(a.end(), {static_cast<long>(g.below(std::max(1, reals))), num, den});
                }
                op("con", a);
                ++lits;
            }
            else if (what < 10) op("again", {static_cast<long>(g.below(50)), static_cast<long>(g.below(16)), 1 + static_cast<long>(g.below(9)), 1 + static_cast<long>(g.below(9))});
            else if (what == 13) { if (logic) { op("alike", {static_cast<long>(g.below(50)), static_cast<long>(g.below(5)), static_cast<long>(g.below(6)), static_cast<long>(g.below(6))}); ++lits; } }
            else if (what == 10 || !logic) { op("bool", {static_cast<long>(g.below(2))}); ++lits; }
            else if (what == 11 && logic) { op("real", {}); ++reals; }
            else if (what == 12 && logic) op("refused", {static_cast<long>(g.below(1000))});
            int cl = what >= (easy ? 9 : 5) && lits > (units == 6 ? 0 : 5) ? 1 + g.below(dense) : 0;
            while (cl--)
            {
                std::vector<long> a;
                int m = g.chance(1, units) ? 1 : 2 + g.below(g.chance(1, 6) ? 6 : easy ? 3 : 2);
                for (int j = 0; j < m; ++j) { long v = 1 + g.below(200); a.push_back(g.chance(1, 2) ? v : -v); }
                op("clause", a);
            }
        }
        op("check", {});
    }
    c.text["ops"] = t;
    return c;
}

void exec_lib(Case const& c, Result& r, Logs& logs)
{
    Plug_cfg pc;
    pc.read_plug(c);
    pc.inv = I_FACTS;
    Session ses(pc, c.sched(0), r);
    Client cl(c, r, ses, logs);
    try { cl.run(); }
    catch (Abandon&) {}
    catch (Limit&) {}
    catch (std::exception& e) { r.fail("error", std::string("a call ends with the error: ") + e.what()); }
    yaga::sim::hooks = nullptr;
    r.hash = mix(r.hash, cl.h.h);
    r.shape = mix(r.shape, cl.h.h);
    finish_session(ses, r, logs);
    r.sample = c.str("ops");
}

} // namespace sim
