// C25: many clients build terms in shared term stores; a model keeps the value of every term under a few
// fixed interpretations. The list of operations is the schedule: it is drawn once and is the trace that
// is minimised and replayed.
#include "alloc.hpp"
#include "scen.hpp"
#include "terms/Term_manager.h"
#include "terms/Term_visitor.h"
#define simultaneous_variable_substitution sim_simultaneous_variable_substitution
#include "terms/Term_rewriter.h"
#undef simultaneous_variable_substitution
#include <algorithm>
#include <gmpxx.h>
#include <unordered_map>

namespace sim {
mpq_class to_mpq(yaga::Rational const& r);
namespace {

namespace ys = yaga::terms;
using ys::term_t;
using ys::Term_manager;
using Tk = ys::Kind;
using Q = mpq_class;
constexpr int slots = 16, worlds = 6, max_stores = 3;

struct Calm { // the harness's own allocations never fail
    bool was = alloc.armed;
    Calm() { alloc.armed = false; }
    ~Calm() { alloc.armed = was; }
};

struct Val {
    bool boolean = true, b = false;
    Q q;
    bool operator==(Val const& o) const { return boolean == o.boolean && (boolean ? b == o.b : q == o.q); }
    std::string str() const { return boolean ? (b ? "true" : "false") : q.get_str(); }
};

struct Fun { std::string name; term_t symbol; std::vector<bool> args; bool ret; };

struct Built { // a term some client was given
    std::string op;
    std::vector<term_t> args;
    std::string text; // of a constant
    int fun = -1;
    term_t t;
    bool boolean;
    Val v[worlds];
};

using Lin = std::map<int32_t, Q>; // handle of a leaf (or -1) -> coefficient

struct Unknown {};

struct Store {
    std::unique_ptr<Term_manager> tm;
    uint64_t salt = 0;
    std::vector<Built> log;
    std::vector<term_t> vars[2];
    std::vector<Fun> funs;
    std::unordered_map<int32_t, std::vector<Val>> var_value;
    std::map<int32_t, std::string> names;
    std::map<std::vector<std::pair<int32_t, std::string>>, term_t> canon;
    std::map<std::vector<int32_t>, term_t> ors;
    int reg[2][slots];
    uint64_t fresh = 0;
    Store() { for (auto& a : reg) for (int& x : a) x = -1; }
};

struct Sim_terms {
    Result& r;
    Store st[max_stores];
    int stores;
    Rng aux;
    std::string where;
    Hash h, shape;
    uint64_t checked = 0, rebuilt = 0, substituted = 0, visited = 0, refused = 0, failed = 0, built = 0, polys = 0, unknown = 0;

    // polynomials driven directly
    using Poly = yaga::Polynomial<term_t>;
    Poly P[4];
    std::map<int32_t, Q> M[4];
    Poly::poly_t storage;

    Sim_terms(Result& res, int n, uint64_t seed) : r(res), stores(n), aux(mix(seed, 0x7e)) { for (int i = 0; i < n; ++i) renew(i); }
    void bad(std::string const& cls, std::string const& d) { Calm c; r.fail(cls, where + ": " + d); }

    void renew(int i)
    {
        st[i] = Store();
        st[i].tm = std::make_unique<Term_manager>();
        st[i].salt = aux.next();
        // constants every client may use
        Built t, f, z;
        t.op = "true"; t.t = ys::true_term; t.boolean = true;
        f.op = "false"; f.t = ys::false_term; f.boolean = true;
        z.op = "const"; z.text = "0"; z.t = ys::zero_term; z.boolean = false;
        for (int w = 0; w < worlds; ++w) { t.v[w].b = true; f.v[w].b = false; z.v[w].boolean = false; z.v[w].q = 0; }
        st[i].log = {t, f, z};
    }

    // ------------------------------------------------------------------ meaning of a term

    Val world_value(Store& s, term_t var, int w)
    {
        auto& v = s.var_value[var.x];
        if (v.empty())
        {
            for (int i = 0; i < worlds; ++i)
            {
                Rng g(mix(s.salt, static_cast<uint64_t>(var.x) * 16 + i));
                Val x;
                x.boolean = s.tm->get_type(var) == ys::types::bool_type;
                if (x.boolean) x.b = g.chance(1, 2);
                else if (i >= 3) x.q = g.range(i == 5 ? 0 : -1, 1); // so close that terms are often equal
                else { x.q = Q(g.range(-6, 6), 1 + g.below(i == 0 ? 1 : 4)); x.q.canonicalize(); }
                v.push_back(x);
            }
        }
        return v[w];
    }

    Val apply(Store& s, term_t symbol, bool ret, std::vector<Val> const& args, int w)
    {
        Hash k;
        k.add(s.salt);
        k.add(symbol.x);
        k.add(w);
        for (auto& a : args) k.add(a.str());
        Rng g(k.h);
        Val x;
        x.boolean = ret;
        if (ret) x.b = g.chance(1, 2);
        else if (w >= 3) x.q = g.range(w == 5 ? 0 : -1, 1);
        else { x.q = Q(g.range(-4, 4), 1 + g.below(3)); x.q.canonicalize(); }
        return x;
    }

    using Memo = std::unordered_map<int32_t, Val>;

    // value of a term read back from the store, variables in `over` changed
    Val eval(Store& s, term_t t, int w, Memo& memo, std::unordered_map<int32_t, Val> const* over = nullptr, int depth = 0)
    {
        if (depth > 4000) throw Unknown();
        auto& tm = *s.tm;
        bool neg = tm.is_negated(t);
        term_t p = tm.positive_term(t);
        auto it = memo.find(p.x);
        if (it == memo.end())
        {
            Val v;
            v.boolean = tm.get_type(p) == ys::types::bool_type;
            auto sub = [&](term_t x) { return eval(s, x, w, memo, over, depth + 1); };
            switch (tm.get_kind(p))
            {
            case Tk::CONSTANT_TERM:
                if (p != ys::true_term) throw Unknown();
                v.b = true;
                break;
            case Tk::ARITH_CONSTANT: v.q = to_mpq(tm.arithmetic_constant_value(p)); break;
            case Tk::UNINTERPRETED_TERM:
                if (over) if (auto o = over->find(p.x); o != over->end()) { v = o->second; break; }
                v = world_value(s, p, w);
                break;
            case Tk::ITE_TERM: { auto a = tm.get_args(p); v = sub(a[0]).b ? sub(a[1]) : sub(a[2]); break; }
            case Tk::APP_TERM:
            {
                std::vector<Val> args;
                for (term_t x : tm.get_args(p)) args.push_back(sub(x));
                v = apply(s, tm.get_fnc_symbol(p), v.boolean, args, w);
                break;
            }
            case Tk::EQ_TERM: { auto a = tm.get_args(p); v.b = sub(a[0]) == sub(a[1]); break; }
            case Tk::OR_TERM: for (term_t x : tm.get_args(p)) v.b |= sub(x).b; break;
            case Tk::XOR_TERM: for (term_t x : tm.get_args(p)) v.b ^= sub(x).b; break;
            case Tk::ARITH_EQ_ATOM: v.b = sub(tm.get_args(p)[0]).q == 0; break;
            case Tk::ARITH_GE_ATOM: v.b = sub(tm.get_args(p)[0]).q >= 0; break;
            case Tk::ARITH_BINEQ_ATOM: { auto a = tm.get_args(p); v.b = sub(a[0]).q == sub(a[1]).q; break; }
            case Tk::ARITH_PRODUCT: v.q = to_mpq(tm.coeff_of_product(p)) * sub(tm.var_of_product(p)).q; break;
            case Tk::ARITH_POLY: for (term_t x : tm.get_args(p)) v.q += sub(x).q; break;
            default: throw Unknown();
            }
            it = memo.emplace(p.x, v).first;
        }
        Val v = it->second;
        if (neg)
        {
            if (!v.boolean) throw Unknown();
            v.b = !v.b;
        }
        return v;
    }

    // the polynomial of an arithmetic term over its leaves
    Lin lin(Store& s, term_t t)
    {
        auto& tm = *s.tm;
        Lin l;
        switch (tm.get_kind(t))
        {
        case Tk::ARITH_CONSTANT: if (Q q = to_mpq(tm.arithmetic_constant_value(t)); q != 0) l[-1] = q; break;
        case Tk::ARITH_PRODUCT: l[tm.var_of_product(t).x] = to_mpq(tm.coeff_of_product(t)); break;
        case Tk::ARITH_POLY: for (term_t x : tm.get_args(t)) add(l, lin(s, x), 1); break;
        default: l[t.x] = 1;
        }
        return l;
    }
    static void add(Lin& l, Lin const& o, Q const& k)
    {
        for (auto& [x, q] : o) { Q& c = l[x]; c += q * k; if (c == 0) l.erase(x); }
    }

    std::string show(Built const& b)
    {
        std::string s = "(" + b.op;
        if (!b.text.empty()) s += " " + b.text;
        for (term_t t : b.args) s += " t" + std::to_string(t.x);
        return s + ")";
    }

    void judge(Store& s, Built const& b, Memo* memos)
    {
        if (s.tm->get_type(b.t) != (b.boolean ? ys::types::bool_type : ys::types::real_type)) { bad("wrong-sort", show(b) + " has the wrong sort"); return; }
        for (int w = 0; w < worlds; ++w)
        {
            Val got;
            try { got = eval(s, b.t, w, memos[w]); }
            catch (Unknown const&) { ++unknown; return; }
            ++checked;
            if (!(got == b.v[w])) { bad("wrong-meaning", show(b) + " is t" + std::to_string(b.t.x) + " with value " + got.str() + " instead of " + b.v[w].str()); return; }
        }
    }

    void check_all(Store& s)
    {
        Calm calm;
        Memo memos[worlds];
        for (auto& b : s.log) { judge(s, b, memos); if (!r.cls.empty()) return; }
        for (auto& [t, n] : s.names)
        {
            auto a = s.tm->get_term_name(term_t{t});
            auto c = s.tm->get_term_by_name(n);
            if (!a || *a != n) bad("wrong-name", "the name of t" + std::to_string(t) + " is " + (a ? std::string(*a) : "lost") + " instead of " + n);
            if (!c || c->x != t) bad("wrong-name", "the name " + n + " belongs to another term");
        }
        if (s.tm->get_term_by_name("never")) bad("wrong-name", "a name never given is known");
    }

    // ------------------------------------------------------------------ building terms

    // the real operation; args is a copy that may be changed
    term_t call(Store& s, std::string const& op, std::vector<term_t> args, std::string const& text, int fun)
    {
        auto& tm = *s.tm;
        std::span<term_t> a(args);
        if (op == "const") return tm.mk_rational_constant(text);
        if (op == "int") return tm.mk_integer_constant(text);
        if (op == "app") return tm.mk_app(s.funs[fun].name, s.funs[fun].ret ? ys::types::bool_type : ys::types::real_type, a);
        if (op == "bin-or") return tm.mk_binary_or(args[0], args[1]);
        if (op == "bin-and") return tm.mk_binary_and(args[0], args[1]);
        if (op == "impl") return tm.mk_implies(args[0], args[1]);
        if (op == "iff") return tm.mk_iff(args[0], args[1]);
        if (op == "eq") return tm.mk_binary_eq(args[0], args[1]);
        if (op == "k-or") return tm.mk_term(Tk::OR_TERM, a);
        if (op == "k-plus") return tm.mk_term(Tk::ARITH_POLY, a);
        if (op == "k-times") return tm.mk_term(Tk::ARITH_PRODUCT, a);
        if (op == "k-ite") return tm.mk_term(Tk::ITE_TERM, a);
        if (op == "k-eq") return tm.mk_term(Tk::EQ_TERM, a);
        if (op == "k-ge0") return tm.mk_term(Tk::ARITH_GE_ATOM, a);
        if (op == "k-eq0") return tm.mk_term(Tk::ARITH_EQ_ATOM, a);
        if (op == "k-bineq") return tm.mk_term(Tk::ARITH_BINEQ_ATOM, a);
        if (op == "minus") return tm.mk_arithmetic_minus(args[0], args[1]);
        if (op == "geq") return tm.mk_arithmetic_geq(args[0], args[1]);
        if (op == "uminus") return tm.mk_unary_minus(args[0]);
        if (op == "m-ite") return tm.mk_ite(args[0], args[1], args[2]);
        return tm.mk_term(op, a, true);
    }

    static Q decimal(std::string const& s)
    {
        auto dot = s.find('.');
        if (dot == std::string::npos) return Q(mpz_class(s, 10));
        std::string f = s.substr(dot + 1);
        mpz_class d;
        mpz_ui_pow_ui(d.get_mpz_t(), 10, f.size());
        Q q(mpz_class(s.substr(0, dot) + f, 10), d);
        q.canonicalize();
        return q;
    }

    // what the operation means
    Val mean(Store& s, std::string const& op, std::vector<Val> const& a, std::string const& text, int fun, int w)
    {
        Val v;
        auto real = [&](Q const& q) { v.boolean = false; v.q = q; return v; };
        auto flag = [&](bool b) { v.b = b; return v; };
        if (op == "const" || op == "int") return real(decimal(text));
        if (op == "app") return apply(s, s.funs[fun].symbol, s.funs[fun].ret, a, w);
        if (op == "or" || op == "k-or" || op == "bin-or") { bool b = false; for (auto& x : a) b |= x.b; return flag(b); }
        if (op == "and" || op == "bin-and") { bool b = true; for (auto& x : a) b &= x.b; return flag(b); }
        if (op == "=>" || op == "impl") return flag(!a[0].b || a[1].b);
        if (op == "iff" || op == "eq" || op == "=" || op == "k-eq" || op == "k-bineq") return flag(a[0] == a[1]);
        if (op == "xor") return flag(a[0].b != a[1].b);
        if (op == "not") return flag(!a[0].b);
        if (op == "distinct") { bool b = true; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < i; ++j) b &= !(a[i] == a[j]); return flag(b); }
        if (op == "ite" || op == "k-ite" || op == "m-ite") return a[0].b ? a[1] : a[2];
        if (op == "+" || op == "k-plus") { Q q = 0; for (auto& x : a) q += x.q; return real(q); }
        if (op == "*" || op == "k-times") { Q q = 1; for (auto& x : a) q *= x.q; return real(q); }
        if (op == "-" || op == "minus" || op == "uminus") return real(a.size() == 1 ? Q(-a[0].q) : Q(a[0].q - a[1].q));
        if (op == "/") return real(a[0].q / a[1].q);
        if (op == "<=") return flag(a[0].q <= a[1].q);
        if (op == "<") return flag(a[0].q < a[1].q);
        if (op == ">") return flag(a[0].q > a[1].q);
        if (op == ">=" || op == "geq") return flag(a[0].q >= a[1].q);
        if (op == "k-ge0") return flag(a[0].q >= 0);
        return flag(a[0].q == 0); // k-eq0
    }

    static size_t size(Val const& v) { return v.boolean ? 1 : mpz_sizeinbase(v.q.get_num_mpz_t(), 2) + mpz_sizeinbase(v.q.get_den_mpz_t(), 2); }

    static bool result_boolean(std::string const& op, Built const* first, Fun const* f)
    {
        if (op == "const" || op == "int" || op == "+" || op == "k-plus" || op == "*" || op == "k-times" || op == "-" || op == "minus" || op == "uminus" || op == "/") return false;
        if (op == "app") return f->ret;
        if (op == "ite" || op == "k-ite" || op == "m-ite") return first->boolean;
        return true;
    }

    // must the operation be refused?
    bool illegal(Store& s, std::string const& op, std::vector<Built const*> const& a)
    {
        if (op == "*" || op == "k-times") { int n = 0; for (auto b : a) n += !s.tm->is_arithmetic_constant(b->t); return n > 1; }
        if (op == "/") return !s.tm->is_arithmetic_constant(a[1]->t) || a[1]->v[0].q == 0;
        return false;
    }

    // same polynomial or same disjuncts: same handle
    void canonical(Store& s, Built const& b)
    {
        if (!b.boolean)
        {
            Lin l;
            if (b.op == "+" || b.op == "k-plus") for (term_t t : b.args) add(l, lin(s, t), 1);
            else if (b.op == "-" || b.op == "minus" || b.op == "uminus")
            {
                add(l, lin(s, b.args[0]), b.args.size() == 1 ? -1 : 1);
                if (b.args.size() > 1) add(l, lin(s, b.args[1]), -1);
            }
            else if (b.op == "const" || b.op == "int") { if (b.v[0].q != 0) l[-1] = b.v[0].q; }
            else if (b.op == "*" || b.op == "k-times")
            {
                Q k = 1;
                for (term_t t : b.args) if (s.tm->is_arithmetic_constant(t)) k *= to_mpq(s.tm->arithmetic_constant_value(t));
                l[-1] = 1;
                for (term_t t : b.args) if (!s.tm->is_arithmetic_constant(t)) l = lin(s, t);
                Lin m;
                if (k != 0) add(m, l, k);
                l = m;
            }
            else if (b.op == "/") add(l, lin(s, b.args[0]), 1 / to_mpq(s.tm->arithmetic_constant_value(b.args[1])));
            else return;
            std::vector<std::pair<int32_t, std::string>> key;
            for (auto& [x, q] : l) key.emplace_back(x, q.get_str());
            auto [it, fresh] = s.canon.emplace(key, b.t);
            if (!fresh && it->second != b.t)
                bad("two-handles", show(b) + " is t" + std::to_string(b.t.x) + ", the same polynomial was t" + std::to_string(it->second.x) + " before");
        }
        else if (b.op == "or" || b.op == "k-or" || b.op == "bin-or")
        {
            std::vector<int32_t> key;
            for (term_t t : b.args) if (t != ys::false_term) key.push_back(t.x);
            std::sort(key.begin(), key.end());
            key.erase(std::unique(key.begin(), key.end()), key.end());
            auto [it, fresh] = s.ors.emplace(key, b.t);
            if (!fresh && it->second != b.t)
                bad("two-handles", show(b) + " is t" + std::to_string(b.t.x) + ", a disjunction of the same terms was t" + std::to_string(it->second.x) + " before");
        }
    }

    void record(Store& s, Built b, int dst)
    {
        Memo memos[worlds];
        judge(s, b, memos);
        if (r.cls.empty()) canonical(s, b);
        h.add(b.t.x);
        shape.add(b.op);
        ++built;
        s.reg[b.boolean][dst % slots] = static_cast<int>(s.log.size());
        s.log.push_back(std::move(b));
    }

    void build(Store& s, std::string const& op, int dst, std::vector<int> const& from, std::string const& text, int fun)
    {
        Built b;
        std::vector<Built const*> src;
        bool small = true;
        {
            Calm calm;
            b.op = op;
            b.text = text;
            b.fun = fun;
            for (int i : from)
            {
                src.push_back(&s.log[i]);
                b.args.push_back(s.log[i].t);
                for (int w = 0; w < worlds; ++w) small &= size(s.log[i].v[w]) < 500;
            }
        }
        if (!small) return;
        bool no = illegal(s, op, src);
        bool thrown = false;
        std::string what;
        {
            std::vector<term_t> args;
            { Calm calm; args = b.args; }
            try { b.t = call(s, op, std::move(args), text, fun); }
            catch (std::bad_alloc const&) { throw; }
            catch (std::exception const& e) { Calm calm; thrown = true; what = e.what(); }
        }
        Calm calm;
        if (no != thrown)
        {
            bad(no ? "not-refused" : "refused", show(b) + (no ? " was not refused" : " was refused: " + what));
            return;
        }
        if (no) { ++refused; return; }
        for (int w = 0; w < worlds; ++w)
        {
            std::vector<Val> a;
            for (auto p : src) a.push_back(p->v[w]);
            b.v[w] = mean(s, op, a, text, fun, w);
        }
        b.boolean = result_boolean(op, src.size() > 1 ? src[1] : nullptr, fun >= 0 ? &s.funs[fun] : nullptr);
        record(s, std::move(b), dst);
    }

    void again(Store& s, Built const& b, int how)
    {
        std::vector<term_t> args;
        {
            Calm calm;
            args = b.args;
            bool sym = b.op == "or" || b.op == "and" || b.op == "+" || b.op == "*" || b.op == "k-or" || b.op == "k-plus" || b.op == "k-times" || b.op == "bin-or" || b.op == "bin-and";
            if (sym && how % 2) std::rotate(args.begin(), args.begin() + (args.empty() ? 0 : how / 2 % args.size()), args.end());
            if (sym && how % 3 == 1) std::reverse(args.begin(), args.end());
        }
        term_t t;
        try { t = call(s, b.op, args, b.text, b.fun); }
        catch (std::bad_alloc const&) { throw; }
        catch (std::exception const& e) { bad("refused", show(b) + ", built before, was refused: " + e.what()); return; }
        ++rebuilt;
        if (t != b.t) bad("two-handles", show(b) + " is t" + std::to_string(t.x) + ", it was t" + std::to_string(b.t.x) + " before");
    }

    void substitute(Store& s, int root, std::vector<std::pair<int, int>> const& map)
    {
        ys::subst_map_t subst;
        std::unordered_map<int32_t, Val> over[worlds];
        Built const& b = s.log[root];
        Val want[worlds];
        std::string text;
        {
            Calm calm;
            for (auto [v, t] : map)
            {
                term_t x = s.log[v].t;
                if (!subst.insert({x, s.log[t].t}).second) continue;
                text += " t" + std::to_string(x.x) + "->t" + std::to_string(s.log[t].t.x);
                for (int w = 0; w < worlds; ++w) { over[w][x.x] = s.log[t].v[w]; if (size(s.log[t].v[w]) > 400) return; }
            }
            for (int w = 0; w < worlds; ++w)
            {
                Memo memo;
                try { want[w] = eval(s, b.t, w, memo, &over[w]); }
                catch (Unknown const&) { ++unknown; return; }
                if (size(want[w]) > 900) return;
            }
        }
        term_t t;
        try { t = ys::sim_simultaneous_variable_substitution(*s.tm, subst, b.t); }
        catch (std::bad_alloc const&) { throw; }
        catch (std::exception const& e) { bad("refused", "substitution" + text + " in " + show(b) + " was refused: " + e.what()); return; }
        Calm calm;
        ++substituted;
        h.add(t.x);
        for (int w = 0; w < worlds; ++w)
        {
            Memo memo;
            Val got;
            try { got = eval(s, t, w, memo); }
            catch (Unknown const&) { ++unknown; return; }
            if (!(got == want[w]))
            {
                bad("wrong-substitution", "substitution" + text + " in t" + std::to_string(b.t.x) + " = " + show(b) + " gives t" + std::to_string(t.x) + " with value " + got.str() + " instead of " + want[w].str());
                return;
            }
        }
    }

    struct Collect : ys::Default_visitor_config {
        std::vector<term_t> seen;
        int resets = 0;
        void visit(term_t t) override { Calm c; seen.push_back(t); }
        void reset() override { ++resets; }
    };

    void reach(Store& s, term_t t, std::set<int32_t>& out)
    {
        std::vector<term_t> todo{t};
        while (!todo.empty())
        {
            term_t x = todo.back();
            todo.pop_back();
            if (!out.insert(s.tm->index_of(x)).second) continue;
            for (term_t c : s.tm->get_args(x)) todo.push_back(c);
        }
    }

    void walk(Store& s, std::vector<int> const& roots)
    {
        Collect c;
        ys::Visitor<Collect> v(*s.tm, c);
        std::vector<term_t> list;
        { Calm calm; for (int i : roots) list.push_back(s.log[i].t); }
        v.visit(std::span<term_t const>(list));
        Calm calm;
        ++visited;
        std::set<int32_t> want, got;
        for (term_t t : list) reach(s, t, want);
        for (term_t t : c.seen)
        {
            for (term_t k : s.tm->get_args(t))
                if (!got.count(s.tm->index_of(k))) { bad("wrong-walk", "t" + std::to_string(t.x) + " is visited before its argument t" + std::to_string(k.x)); return; }
            if (!got.insert(s.tm->index_of(t)).second) { bad("wrong-walk", "t" + std::to_string(t.x) + " is visited twice"); return; }
        }
        if (got != want) bad("wrong-walk", std::to_string(got.size()) + " terms were visited instead of " + std::to_string(want.size()));
        size_t n = c.seen.size();
        v.visit(std::span<term_t const>(list));
        if (c.seen.size() != n) bad("wrong-walk", "terms are visited again");
    }

    // ------------------------------------------------------------------ polynomials

    void poly(std::string const& op, int p, int q, int x, Q const& k, int mode)
    {
        Calm calm;
        ++polys;
        term_t var{x == 0 ? -1 : 2 * x};
        yaga::Rational rk(k.get_str().c_str());
        auto bits = [&](auto& m) { size_t n = 0; for (auto& [v, c] : m) n = std::max(n, mpz_sizeinbase(c.get_num_mpz_t(), 2) + mpz_sizeinbase(c.get_den_mpz_t(), 2)); return n; };
        if (op == "p-add") { if (k == 0 || M[p].count(var.x)) return; P[p].add_term(var, rk); M[p][var.x] = k; }
        else if (op == "p-rem")
        {
            if (!M[p].count(var.x)) return;
            if (to_mpq(P[p].remove_var(var)) != M[p][var.x]) bad("wrong-polynomial", "the removed coefficient is wrong");
            M[p].erase(var.x);
        }
        else if (op == "p-neg") { P[p].negate(); for (auto& [v, c] : M[p]) c = -c; }
        else if (op == "p-mul") { if (k == 0 || bits(M[p]) > 400) return; P[p].multiply_by(rk); for (auto& [v, c] : M[p]) c *= k; }
        else if (op == "p-div") { if (k == 0 || bits(M[p]) > 400) return; P[p].divide_by(rk); for (auto& [v, c] : M[p]) c /= k; }
        else if (op == "p-copy") { if (p == q) return; P[p] = P[q]; M[p] = M[q]; }
        else if (op == "p-merge")
        {
            if (p == q || k == 0 || bits(M[p]) > 400 || bits(M[q]) > 400) return;
            std::multiset<int32_t> added, removed, want_added, want_removed;
            for (auto& [v, c] : M[q])
            {
                auto it = M[p].find(v);
                if (it == M[p].end()) { M[p][v] = c * k; want_added.insert(v); }
                else if ((it->second += c * k) == 0) { M[p].erase(it); want_removed.insert(v); }
            }
            if (mode == 0) P[p].merge(P[q], rk);
            else
            {
                Poly::poly_t own;
                P[p].merge(P[q], rk, mode == 1 ? storage : own, [&](term_t v) { added.insert(v.x); }, [&](term_t v) { removed.insert(v.x); });
                if (added != want_added) bad("wrong-polynomial", "the variables reported as added are wrong");
                if (removed != want_removed) bad("wrong-polynomial", "the variables reported as removed are wrong");
            }
            auto const& o = P[q];
            if (o.size() != M[q].size()) bad("wrong-polynomial", "merging changed the other polynomial");
        }
        for (int i : {p, q})
        {
            auto const& z = P[i];
            if (z.size() != M[i].size()) { bad("wrong-polynomial", "polynomial " + std::to_string(i) + " has " + std::to_string(z.size()) + " monomials instead of " + std::to_string(M[i].size())); return; }
            auto it = M[i].begin();
            for (auto& mono : z)
            {
                if (mono.var.x != it->first || to_mpq(mono.coeff) != it->second)
                {
                    bad("wrong-polynomial", "polynomial " + std::to_string(i) + " has " + to_mpq(mono.coeff).get_str() + "*" + std::to_string(mono.var.x) + " instead of " + it->second.get_str() + "*" + std::to_string(it->first));
                    return;
                }
                ++it;
            }
            if (z.contains(var) != (M[i].count(var.x) > 0)) bad("wrong-polynomial", "contains is wrong");
        }
    }

    // ------------------------------------------------------------------ one operation

    term_t fresh(Store& s, bool boolean, bool named)
    {
        term_t t = s.tm->mk_uninterpreted_constant(boolean ? ys::types::bool_type : ys::types::real_type);
        Calm calm;
        if (s.var_value.count(t.x) || s.tm->is_negated(t)) { bad("two-handles", "a fresh variable has the handle t" + std::to_string(t.x) + " of another"); return t; }
        for (auto& b : s.log) if (b.t == t) { bad("two-handles", "a fresh variable has the handle of " + show(b)); return t; }
        s.vars[boolean].push_back(t);
        if (named)
        {
            std::string n = (boolean ? "b" : "r") + std::to_string(s.fresh++);
            s.tm->set_term_name(t, n);
            s.names[t.x] = n;
        }
        return t;
    }

    void exec(std::string const& op, std::vector<int> const& a, std::string const& text)
    {
        auto A = [&](size_t i) { return i < a.size() ? std::abs(a[i]) : 0; };
        if (op[0] == 'p' && op[1] == '-')
        {
            Q k(text.empty() ? "1" : text);
            k.canonicalize();
            poly(op, A(0) % 4, A(1) % 4, A(2) % 9, k, A(3) % 3);
            return;
        }
        Store& s = st[A(0) % stores];
        auto R = [&](bool boolean, int i) { return s.reg[boolean][i % slots]; };
        if (op == "var")
        {
            if (alloc.armed && a.size() > 3) return;
            bool boolean = A(1) % 2;
            term_t t = fresh(s, boolean, A(3) % 2);
            if (!r.cls.empty()) return;
            Calm calm;
            Built b;
            b.op = "var";
            b.t = t;
            b.boolean = boolean;
            for (int w = 0; w < worlds; ++w) b.v[w] = world_value(s, t, w);
            record(s, b, A(2));
        }
        else if (op == "fun")
        {
            Calm calm; // a failed declaration leaves a name behind, which is not what is judged here
            Fun f;
            f.name = "f" + std::to_string(s.funs.size());
            f.ret = A(1) % 2;
            f.symbol = fresh(s, f.ret, false);
            s.vars[f.ret].pop_back();
            s.tm->set_term_name(f.symbol, f.name);
            s.names[f.symbol.x] = f.name;
            for (size_t i = 2; i < a.size(); ++i) f.args.push_back(A(i) % 2);
            if (f.args.empty()) f.args.push_back(false);
            s.funs.push_back(f);
        }
        else if (op == "app")
        {
            if (s.funs.empty()) return;
            int f = A(1) % s.funs.size();
            std::vector<int> from;
            for (size_t i = 0; i < s.funs[f].args.size(); ++i) { int x = R(s.funs[f].args[i], A(3 + i)); if (x < 0) return; from.push_back(x); }
            build(s, op, A(2), from, "", f);
        }
        else if (op == "const" || op == "int") build(s, op, A(1), {}, text, -1);
        else if (op == "load") { Calm calm; if (!s.log.empty()) { int i = A(1) % s.log.size(); s.reg[s.log[i].boolean][A(2) % slots] = i; } }
        else if (op == "checkall") check_all(s);
        else if (op == "renew") { Calm calm; renew(A(0) % stores); }
        else if (op == "again")
        {
            if (s.log.empty()) return;
            for (int k = 0, i = A(1); k < 1 + A(2) % 8; ++k, i += 1 + A(3))
            {
                Built b;
                { Calm calm; b = s.log[i % s.log.size()]; }
                if (b.op != "var" && b.op != "true" && b.op != "false" && r.cls.empty()) again(s, b, A(3) + k);
            }
        }
        else if (op == "subst")
        {
            int root = R(A(1) % 2, A(2));
            if (root < 0) return;
            std::vector<std::pair<int, int>> map;
            for (size_t i = 3; i + 1 < a.size(); i += 2)
            {
                bool boolean = A(i) % 2;
                std::vector<int> vs;
                for (int k = 0; k < static_cast<int>(s.log.size()); ++k) if (s.log[k].op == "var" && s.log[k].boolean == boolean) vs.push_back(k);
                int t = R(boolean, A(i + 1));
                if (vs.empty() || t < 0) continue;
                map.emplace_back(vs[A(i) / 2 % vs.size()], t);
            }
            substitute(s, root, map);
        }
        else if (op == "walk")
        {
            std::vector<int> roots;
            for (size_t i = 1; i + 1 < a.size(); i += 2) { int t = R(A(i) % 2, A(i + 1)); if (t >= 0) roots.push_back(t); }
            walk(s, roots);
        }
        else if (op == "bulk") bulk(s, A(1), A(2) % 3000, A(3));
        else
        {
            // a[1]: destination, then pairs (sort, register) for polymorphic operations or registers
            bool arith = op == "+" || op == "*" || op == "-" || op == "/" || op == "<=" || op == "<" || op == ">" || op == ">=" || op == "k-plus" || op == "k-times" || op == "minus" || op == "uminus" || op == "geq" ||
                op == "k-ge0" || op == "k-eq0" || op == "k-bineq";
            bool poly = op == "=" || op == "eq" || op == "k-eq" || op == "distinct";
            bool ite = op == "ite" || op == "k-ite" || op == "m-ite";
            bool boolean = poly || ite ? A(2) % 2 : !arith;
            std::vector<int> from;
            for (size_t i = poly || ite ? 3 : 2; i < a.size(); ++i)
            {
                int x = R(ite && i == 3 ? true : boolean, A(i));
                if (x < 0) return;
                from.push_back(x);
            }
            size_t n = from.size();
            bool ok = ite ? n == 3 : op == "distinct" ? n >= 2 && n < 6 : op == "not" || op == "uminus" || op == "k-ge0" || op == "k-eq0" ? n == 1 : op == "-" ? n == 1 || n == 2 : op == "or" || op == "and" || op == "k-or" || op == "+" || op == "*" || op == "k-plus" || op == "k-times" ? true : n == 2;
            if (ok) build(s, op, A(1), from, "", -1);
        }
    }

    // many similar terms, so that the tables of the store grow
    void bulk(Store& s, int kind, int n, int seed)
    {
        Rng g(mix(seed, 0xb01c));
        for (int i = 0; i < n && r.cls.empty(); ++i)
        {
            switch (kind % 4)
            {
            case 0: build(s, "int", i, {}, std::to_string(g.below(2) ? i : g.below(1000000000)), -1); break;
            case 1: exec("var", {static_cast<int>(&s - st), static_cast<int>(g.below(2)), i, static_cast<int>(g.below(2))}, ""); break;
            default:
            {
                bool boolean = kind % 4 == 2;
                std::vector<int> from;
                int k = 2 + g.below(3);
                for (int tries = 0; tries < 60 && static_cast<int>(from.size()) < k; ++tries)
                {
                    int j = g.below(s.log.size());
                    if (s.log[j].boolean == boolean && (boolean || size(s.log[j].v[0]) < 60)) from.push_back(j);
                }
                if (static_cast<int>(from.size()) == k) build(s, boolean ? "or" : "+", i, from, "", -1);
            }
            }
        }
    }
};

std::string number(Rng& r)
{
    auto digits = [&](int n) { std::string s; for (int i = 0; i < n; ++i) s += static_cast<char>('0' + r.below(10)); return s; };
    std::string i;
    switch (r.below(6))
    {
    case 0: i = std::to_string(r.below(4)); break;
    case 1: i = std::to_string(2147483645u + r.below(6)); break;
    case 2: i = std::to_string(4294967293u + r.below(6)); break;
    case 3: i = "1" + digits(1 + r.below(24)); break;
    default: i = std::to_string(r.below(100));
    }
    return i;
}

} // namespace

Case make_term(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.scen = "terms";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e));
    int stores = r.chance(1, 2) ? 1 : 1 + r.below(max_stores);
    c.cfg["stores"] = stores;
    if (r.chance(1, 3)) c.cfg["layout"] = 1 + r.below(1000000);
    std::string ops;
    auto op = [&](std::string const& o, std::vector<int> const& a, std::string const& tail = "") {
        ops += o;
        for (int v : a) ops += " " + std::to_string(v);
        if (!tail.empty()) ops += " " + tail;
        ops += "\n";
    };
    auto any = [&] { return static_cast<int>(r.below(slots)); };
    auto big = [&] { return static_cast<int>(r.below(100000)); };
    auto S = [&] { return static_cast<int>(r.below(stores)); };
    bool bools = r.chance(4, 5), reals = r.chance(4, 5) || !bools, funs = r.chance(1, 3), faults = r.chance(1, 3), few = r.chance(1, 2);
    int vars = few ? 3 : 6;
    for (int s = 0; s < stores; ++s)
    {
        for (int i = 0; i < vars; ++i) { if (bools) op("var", {s, 1, i, i % 2}); if (reals) op("var", {s, 0, i, i % 2}); }
        if (reals) for (int i = 0; i < 3; ++i) op("const", {s, vars + i}, std::to_string(i));
        for (int i = 0; funs && i < 2; ++i) { std::vector<int> a{s, static_cast<int>(r.below(2)) && bools}; for (int k = 1 + r.below(3); k > 0; --k) a.push_back(r.below(2) && bools); op("fun", a); }
    }
    int steps = 30 + r.below(thorough ? 300 : 90);
    auto list = [&](std::vector<int> a, int lo, int hi) { for (int n = r.range(lo, hi); n > 0; --n) a.push_back(any()); return a; };
    for (int i = 0; i < steps; ++i)
    {
        int s = S();
        if (faults && r.chance(1, 6)) op("oom", {1 + static_cast<int>(r.below(r.chance(1, 2) ? 4 : 25)), 1 + static_cast<int>(r.below(3))});
        switch (r.below(reals ? 44 : 22))
        {
        case 0: case 1: op(r.chance(1, 3) ? "k-or" : "or", list({s, any()}, 0, r.chance(1, 6) ? 9 : 3)); break;
        case 2: op("and", list({s, any()}, 0, 4)); break;
        case 3: { static char const* const b[] = {"bin-or", "bin-and", "impl", "iff", "=>", "xor"}; op(b[r.below(6)], list({s, any()}, 2, 2)); break; }
        case 4: op("not", list({s, any()}, 1, 1)); break;
        case 5: { static char const* const b[] = {"ite", "k-ite", "m-ite"}; op(b[r.below(3)], list({s, any(), bools && (!reals || r.chance(1, 2))}, 3, 3)); break; }
        case 6: { static char const* const b[] = {"=", "eq", "k-eq"}; op(b[r.below(3)], list({s, any(), bools && (!reals || r.chance(1, 3))}, 2, 2)); break; }
        case 7: op("distinct", list({s, any(), bools && (!reals || r.chance(1, 3))}, 2, 4)); break;
        case 8: case 9: op("again", {s, big(), static_cast<int>(r.below(8)), big()}); break;
        case 10: case 11: case 12:
        {
            std::vector<int> a{s, bools && (!reals || r.chance(1, 2)), any()};
            for (int n = 1 + r.below(3); n > 0; --n) { bool b = bools && (!reals || r.chance(1, 2)); a.push_back(2 * static_cast<int>(r.below(8)) + b); a.push_back(any()); }
            op("subst", a);
            break;
        }
        case 13: { std::vector<int> a{s}; for (int n = 1 + r.below(4); n > 0; --n) { a.push_back(r.below(2)); a.push_back(any()); } op("walk", a); break; }
        case 14: case 15: op("load", {s, big(), any()}); break;
        case 16: op("checkall", {s}); break;
        case 17: op("app", list({s, static_cast<int>(r.below(4)), any()}, 3, 3)); break;
        case 18: if (r.chance(1, 6)) op("bulk", {s, static_cast<int>(r.below(4)), static_cast<int>(r.below(r.chance(1, 5) ? 1200 : 80)), big()}); break;
        case 19: if (stores > 1 && r.chance(1, 4)) op("renew", {s}); else op("var", {s, bools && (!reals || r.chance(1, 2)), any(), static_cast<int>(r.below(2))}); break;
        case 20: if (funs) op("app", list({s, static_cast<int>(r.below(4)), any()}, 3, 3)); break;
        case 21: if (r.chance(1, 2)) op("fun", {s, bools && r.chance(1, 2), bools && r.chance(1, 2), 0}); break;
        // arithmetic
        case 22: case 23: case 24: op(r.chance(1, 3) ? "k-plus" : "+", list({s, any()}, 0, 4)); break;
        case 25: case 26: op(r.chance(1, 2) ? "-" : "minus", list({s, any()}, 2, 2)); break;
        case 27: op(r.chance(1, 2) ? "-" : "uminus", list({s, any()}, 1, 1)); break;
        case 28: case 29: case 30: op(r.chance(1, 3) ? "k-times" : "*", list({s, any()}, 0, r.chance(1, 4) ? r.range(3, 6) : 2)); break;
        case 31: op("/", list({s, any()}, 2, 2)); break;
        case 32: case 33: { static char const* const b[] = {"<=", "<", ">", ">=", "geq", "k-bineq", "="}; int k = r.below(7); std::vector<int> a{s, any()}; if (k == 6) a.push_back(0); op(b[k], list(a, 2, 2)); break; }
        case 34: op(r.chance(1, 2) ? "k-ge0" : "k-eq0", list({s, any()}, 1, 1)); break;
        case 35: op("int", {s, any()}, number(r)); break;
        case 36: case 37:
        {
            std::string n = number(r);
            if (r.chance(2, 3)) { n += "."; for (int k = 1 + r.below(r.chance(1, 4) ? 20 : 4); k > 0; --k) n += static_cast<char>('0' + (r.chance(1, 3) ? 0 : r.below(10))); }
            op("const", {s, any()}, n);
            break;
        }
        case 38: // sums that cancel
        {
            int a = any(), b = any(), d = any();
            if (mix(seed, i) % 4 == 3)
            {
                // two leaves of any kind, scaled, compared with each other
                int k = any(), x = any(), y = any();
                auto leaf = [&](int to) {
                    int w = r.below(4);
                    if (w == 0) op("ite", {s, to, 0, any(), any(), any()});
                    else if (w == 1 && funs) op("app", {s, static_cast<int>(r.below(4)), to, any(), any(), any()});
                    else if (w < 3) op("var", {s, 0, to, 0});
                };
                leaf(a);
                leaf(b);
                op("const", {s, k}, r.chance(1, 2) ? "1" : std::to_string(r.below(4)));
                if (r.chance(1, 2)) op("uminus", {s, k, k});
                op("*", {s, x, k, a});
                if (r.chance(1, 3)) op("const", {s, k}, std::to_string(r.below(4)));
                op("*", {s, y, k, b});
                static char const* const cmp[] = {"=", "eq", "k-bineq", "<=", "<"};
                op("+", {s, d, x, y});
                op("k-eq0", {s, any(), d});
                op("k-ge0", {s, any(), d});
                int c2 = r.below(5);
                op(cmp[c2], c2 > 1 ? std::vector<int>{s, any(), x, y} : std::vector<int>{s, any(), 0, x, y});
                op("-", {s, d, x, y});
                op("k-eq0", {s, any(), d});
                break;
            }
            if (mix(seed, i) % 2 && stores > 0)
            {
                // choices between constants, scaled and shifted
                int k = any();
                auto small = [&] { return r.chance(1, 2) ? std::to_string(r.below(2)) : std::to_string(r.below(7)); };
                op("const", {s, a}, small());
                op("const", {s, b}, small());
                op("const", {s, k}, r.chance(1, 3) ? number(r) : small());
                if (r.chance(1, 3)) op("uminus", {s, r.chance(1, 2) ? k : a, r.chance(1, 2) ? k : a});
                op(r.chance(1, 2) ? "ite" : "k-ite", {s, d, 0, any(), a, b});
                op(r.chance(1, 3) ? "k-times" : "*", r.chance(1, 2) ? std::vector<int>{s, any(), d, k} : std::vector<int>{s, any(), k, d});
                op("+", {s, any(), d, k, d});
                op("=", {s, any(), 0, d, r.chance(1, 2) ? a : k});
                op("<=", {s, any(), d, b});
                break;
            }
            op("-", {s, d, a, b});
            op("+", {s, any(), d, b});
            op("minus", {s, any(), d, d});
            op("=", {s, any(), 0, d, a});
            break;
        }
        default: // polynomials
        {
            static char const* const b[] = {"p-add", "p-add", "p-add", "p-merge", "p-merge", "p-merge", "p-merge", "p-neg", "p-mul", "p-div", "p-rem", "p-copy"};
            for (int n = 1 + r.below(4); n > 0; --n)
            {
                int num = r.chance(1, 8) ? r.range(-2000000000, 2000000000) : r.range(-3, 3);
                Q k(num, r.chance(2, 3) ? 1 : 1 + r.below(3));
                k.canonicalize();
                op(b[r.below(12)], {static_cast<int>(r.below(4)), static_cast<int>(r.below(4)), static_cast<int>(r.below(9)), static_cast<int>(r.below(3))}, k.get_str());
            }
        }
        }
    }
    c.text["ops"] = ops;
    return c;
}

void exec_term(Case const& c, Result& r, Logs&)
{
    if (c.get("layout")) { alloc.perturb = true; alloc.state = c.get("layout"); alloc.fill = 0xa5; }
    {
        Sim_terms w(r, std::clamp<long>(c.get("stores", 1), 1, max_stores), c.seed);
        std::istringstream in(c.str("ops"));
        std::string line;
        uint64_t n = 0, from = 0, len = 0;
        while (std::getline(in, line) && r.cls.empty())
        {
            std::istringstream l(line);
            std::string op, tok, text;
            std::vector<int> a;
            if (!(l >> op)) continue;
            std::vector<std::string> toks;
            while (l >> tok) toks.push_back(tok);
            bool tail = (op == "const" || op == "int" || op.compare(0, 2, "p-") == 0) && !toks.empty();
            for (size_t i = 0; i < toks.size(); ++i)
            {
                if (tail && i + 1 == toks.size()) { text = toks[i]; break; }
                char* e = nullptr;
                long v = std::strtol(toks[i].c_str(), &e, 10);
                a.push_back(static_cast<int>(v));
            }
            if ((op == "const" || op == "int") && (text.empty() || text.find_first_not_of("0123456789.") != std::string::npos)) continue;
            w.where = "operation " + std::to_string(++n) + " (" + line + ")";
            ++r.steps;
            if (op == "oom") { from = a.empty() ? 1 : std::max(1, a[0]); len = a.size() > 1 ? std::max(1, a[1]) : 1; continue; }
            bool fault = from && op != "bulk" && op != "checkall" && op != "renew" && op != "fun" && op != "var";
            if (fault) { alloc.count = 0; alloc.failed = 0; alloc.fail_from = from; alloc.fail_len = len; }
            try
            {
                alloc.armed = fault;
                w.exec(op, a, text);
                alloc.armed = false;
            }
            catch (std::bad_alloc const&)
            {
                alloc.armed = false;
                if (!fault || !alloc.failed) w.bad("exception", "bad_alloc without a failed allocation");
                ++w.failed;
                // what was built before is untouched
                for (int i = 0; i < w.stores && r.cls.empty(); ++i) w.check_all(w.st[i]);
            }
            catch (std::exception const& e)
            {
                alloc.armed = false;
                w.bad("exception", e.what());
            }
            if (fault) { r.st["fault.allocation"] += alloc.failed; from = 0; }
        }
        for (int i = 0; i < w.stores && r.cls.empty(); ++i) { w.where = "at the end"; w.check_all(w.st[i]); }
        r.st["operations"] += n;
        r.st["fault.moved_memory"] += c.get("layout") != 0;
        r.st["terms_built"] += w.built;
        r.st["terms_built_again"] += w.rebuilt;
        r.st["values_checked"] += w.checked;
        r.st["substitutions"] += w.substituted;
        r.st["walks"] += w.visited;
        r.st["refused_operations"] += w.refused;
        r.st["operations_out_of_memory"] += w.failed;
        r.st["polynomial_operations"] += w.polys;
        r.st["terms_not_understood"] += w.unknown;
        r.hash = w.h.h;
        r.shape = w.shape.h;
        r.nontrivial = w.built > 15;
    }
    alloc.perturb = false;
    r.sample = c.str("ops").substr(0, 800);
}

} // namespace sim
