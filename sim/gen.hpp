// Seeded workload generation (swarm style: every run draws its own feature mix).
#pragma once
#include "ast.hpp"
#include <set>

namespace sim {

struct GenCfg {
    int bools = 3, reals = 3, funs = 0;
    int asserts = 6, depth = 3;
    bool let = false, ite = false, define = false, distinct = false, decimals = false, big = false, quoted = false;
    bool bool_uf = false;
    bool params = true; // define-fun with parameters
};

class Gen {
public:
    Rng& r;
    GenCfg g;
    std::vector<std::string> bools, reals;
    std::vector<Fun> funs, defs;
    std::vector<std::pair<std::string, Sort>> locals;
    std::vector<P> bool_pool, real_pool, atom_pool;
    int app_depth = 0;
    int fresh = 0;
    explicit Gen(Rng& rng) : r(rng) {}

    mpq_class number()
    {
        int k = r.below(20);
        if (g.big && k < 4)
        {
            static std::vector<std::string> bigs = {"2147483647", "2147483648", "4294967296", "10000000000", "99999999999999999999",
                "1000000007", "65536", "46341", "4294967295", "2147483646", "123456789012345678901234567890"};
            mpq_class q(mpz_class(bigs[r.below(bigs.size())], 10));
            if (r.chance(1, 3)) q = 1 / q;
            if (r.chance(1, 2)) q = -q;
            return q;
        }
        if (g.decimals && k == 4)
        {
            // a number with several decimal places
            mpz_class num = 1, den = 1;
            for (int i = 1 + r.below(g.big ? 12 : 5); i > 0; --i) { num = num * 10 + r.below(10); den *= 10; }
            if (g.big && r.chance(1, 2)) num += den * r.below(1 << 30);
            mpq_class q(num, den);
            q.canonicalize();
            return r.chance(1, 2) ? mpq_class(-q) : q;
        }
        if (k < 3)
        {
            mpq_class q(r.range(-9, 9), 1 + r.below(5));
            q.canonicalize();
            return q;
        }
        if (k < 14) return mpq_class(r.range(-3, 3));
        return mpq_class(r.range(-10, 10));
    }
    P num_term(mpq_class q)
    {
        q.canonicalize();
        mpq_class a = abs(q);
        P t;
        if (g.decimals && r.chance(1, 3))
        {
            // exact decimal, sometimes with superfluous zeros
            mpz_class scale = 1;
            size_t digits = 0;
            while (digits < 18 && mpq_class(a * scale).get_den() != 1) { scale *= 10; ++digits; }
            mpq_class v = a * scale;
            if (v.get_den() == 1)
            {
                size_t more = r.chance(1, 2) ? r.below(4) : 0;
                if (digits + more == 0) more = 1;
                std::string z = v.get_num().get_str() + std::string(more, '0');
                digits += more;
                while (z.size() < digits + 1) z = "0" + z;
                t = mk_lit(z.substr(0, z.size() - digits) + "." + z.substr(z.size() - digits), a);
            }
        }
        if (!t) return mk_num(q);
        return q < 0 ? mk(NEG, REAL, {t}) : t;
    }
    P constant() { return num_term(number()); }
    P real_var()
    {
        std::vector<P> c;
        for (auto& l : locals) if (l.second == REAL) c.push_back(mk_var(l.first, REAL));
        if (!c.empty() && r.chance(1, 2)) return r.pick(c);
        if (reals.empty()) return constant();
        return mk_var(r.pick(reals), REAL);
    }
    P bool_var()
    {
        std::vector<P> c;
        for (auto& l : locals) if (l.second == BOOL) c.push_back(mk_var(l.first, BOOL));
        if (!c.empty() && r.chance(1, 2)) return r.pick(c);
        if (bools.empty()) return atom(1);
        return mk_var(r.pick(bools), BOOL);
    }
    P app(Fun const& f, int d)
    {
        std::vector<P> a;
        ++app_depth;
        for (Sort s : f.args) a.push_back(s == REAL ? real(d - 1) : boolean(d - 1));
        --app_depth;
        return mk_app(f.name, f.ret, a);
    }
    std::vector<Fun> funs_of(Sort s)
    {
        std::vector<Fun> v;
        if (app_depth >= 2) return v; // keeps terms small
        for (auto& f : funs) if (f.ret == s) v.push_back(f);
        for (auto& f : defs) if (f.ret == s) v.push_back(f);
        return v;
    }
    P let_term(Sort s, int d)
    {
        auto n = std::make_shared<Node>();
        n->op = LET;
        n->sort = s;
        int k = 1 + r.below(2);
        std::vector<std::pair<std::string, Sort>> add;
        for (int i = 0; i < k; ++i)
        {
            Sort bs = r.chance(1, 2) ? REAL : BOOL;
            if (g.reals == 0 && s == BOOL) bs = BOOL;
            n->kids.push_back(bs == REAL ? real(d - 1) : boolean(d - 1));
            // sometimes shadow a declared name or an outer binder
            std::string nm = "l" + std::to_string(r.below(4));
            if (r.chance(1, 5)) nm = bs == REAL && !reals.empty() ? r.pick(reals) : nm;
            for (auto& p : n->names) if (p == nm) nm = "m" + std::to_string(fresh++);
            n->names.push_back(nm);
            add.emplace_back(nm, bs);
        }
        auto saved = locals;
        for (auto& a : add)
        {
            // shadowing with another sort is legal in SMT-LIB but confuses our sort lookup by name
            locals.erase(std::remove_if(locals.begin(), locals.end(), [&](auto& l) { return l.first == a.first && l.second != a.second; }), locals.end());
            locals.push_back(a);
        }
        n->kids.push_back(s == REAL ? real(d - 1) : boolean(d - 1));
        locals = saved;
        return n;
    }
    P linear(int vars)
    {
        std::vector<P> k;
        for (int i = 0; i < vars; ++i)
        {
            P v = real_leaf();
            int c = r.below(6);
            if (c < 2) k.push_back(v);
            else if (c == 2) k.push_back(mk(NEG, REAL, {v}));
            else
            {
                P q = constant();
                k.push_back(r.chance(1, 2) ? mk(MUL, REAL, {q, v}) : mk(MUL, REAL, {v, q}));
            }
        }
        if (r.chance(1, 3)) k.push_back(constant());
        if (k.size() == 1) return k[0];
        if (k.size() == 2 && r.chance(1, 2)) return mk(SUB, REAL, k);
        return mk(ADD, REAL, k);
    }
    P real_leaf()
    {
        auto fs = funs_of(REAL);
        if (!fs.empty() && r.chance(2, 5)) return app(r.pick(fs), 1);
        return real_var();
    }
    P real(int d)
    {
        if (d <= 0) return r.chance(1, 4) ? constant() : real_var();
        int k = r.below(12);
        if (k < 4) return linear(1 + r.below(r.chance(1, 4) ? 6 : 3));
        if (k < 6 && g.ite && r.chance(1, 4))
        {
            // a choice between constants, scaled or shifted
            auto pick = [&] { return r.chance(1, 2) ? mk_num(mpq_class(r.range(-1, 1))) : constant(); };
            P t = pick(), e = pick();
            P c = mk(ITE, REAL, {boolean(d - 1), t, e});
            int w = r.below(5);
            if (w == 0) return mk(MUL, REAL, {constant(), c});
            if (w == 1) return mk(MUL, REAL, {c, pick()});
            if (w == 2) return mk(ADD, REAL, {c, r.chance(1, 2) ? real_leaf() : pick(), mk(MUL, REAL, {constant(), c})});
            if (w == 3) return mk(NEG, REAL, {c});
            return c;
        }
        if (k < 6 && g.ite) return mk(ITE, REAL, {boolean(d - 1), real(d - 1), real(d - 1)});
        if (k < 7 && g.let) return let_term(REAL, d);
        if (k < 9)
        {
            auto fs = funs_of(REAL);
            if (!fs.empty()) return app(r.pick(fs), d);
        }
        if (k == 9) return mk(NEG, REAL, {real(d - 1)});
        if (k == 10)
        {
            mpq_class q = number();
            if (q == 0) q = 2;
            return r.chance(1, 2) ? mk(DIV, REAL, {real(d - 1), num_term(q)}) : mk(MUL, REAL, {num_term(q), real(d - 1)});
        }
        return real_leaf();
    }
    P atom(int d)
    {
        if (!atom_pool.empty() && app_depth == 0 && r.chance(1, 3)) return r.pick(atom_pool);
        static Op ops[] = {LE, LT, GE, GT, EQ, LE, LT, GE};
        P a;
        if (g.distinct && r.chance(1, 8))
            a = mk(DISTINCT, BOOL, r.chance(1, 2) ? std::vector<P>{real(d), real(d - 1), real(0)} : std::vector<P>{real(d), real(0)});
        else if (g.ite && d > 0 && r.chance(1, 10))
        {
            // two scaled choices (or applications) against each other
            auto side = [&] {
                auto arm = [&] { return r.chance(1, 2) ? mk_num(mpq_class(r.range(-1, 1))) : r.chance(1, 2) ? real_var() : constant(); };
                P c = r.chance(1, 4) ? real_leaf() : nullptr;
                if (!c) { P t = arm(), e = arm(); c = mk(ITE, REAL, {boolean(d - 1), t, e}); }
                int k = r.below(6);
                return k < 2 ? c : k == 2 ? mk(NEG, REAL, {c}) : mk(MUL, REAL, {num_term(mpq_class(k == 3 ? 2 : k == 4 ? -2 : r.range(-3, 3))), c});
            };
            P x = side(), y = side();
            Op o = r.chance(1, 2) ? EQ : ops[r.below(8)];
            a = r.chance(1, 2) ? mk(o, BOOL, {x, y}) : mk(o, BOOL, {mk(r.chance(2, 3) ? ADD : SUB, REAL, {x, y}), mk_num(mpq_class(r.chance(2, 3) ? 0 : r.range(-2, 2)))});
        }
        else
        {
            Op o = ops[r.below(8)];
            P x = real(d), y = r.chance(1, 2) ? constant() : real(d - 1);
            if (r.chance(1, 4)) std::swap(x, y);
            a = mk(o, BOOL, {x, y});
        }
        if (locals.empty()) atom_pool.push_back(a);
        return a;
    }
    P boolean(int d)
    {
        bool arith = g.reals > 0;
        if (g.bool_uf && r.chance(1, 4))
        {
            auto fs = funs_of(BOOL);
            if (!fs.empty()) return app(r.pick(fs), d);
        }
        if (d <= 0) return (arith && r.chance(2, 3)) ? atom(1) : bool_var();
        if (d == 1 && arith && r.chance(1, 2)) return atom(1);
        int k = r.below(16);
        auto kids = [&](int n) { std::vector<P> v; for (int i = 0; i < n; ++i) v.push_back(boolean(d - 1)); return v; };
        if (k < 5 && app_depth == 0 && locals.empty() && r.chance(1, 7))
        {
            // many parts at once
            std::vector<P> v;
            int n = 6 + r.below(r.chance(1, 3) ? 20 : 8);
            for (int i = 0; i < n; ++i)
            {
                P a = arith && r.chance(1, 2) ? atom(1) : boolean(0);
                v.push_back(r.chance(1, 3) ? mk(NOT, BOOL, {a}) : a);
            }
            return mk(k < 3 ? OR : AND, BOOL, v);
        }
        if (k < 3) return mk(OR, BOOL, kids(1 + r.below(4)));
        if (k < 5) return mk(AND, BOOL, kids(1 + r.below(4)));
        if (k < 7) return mk(NOT, BOOL, kids(1));
        if (k == 7) return mk(IMPL, BOOL, kids(2));
        if (k == 8) return mk(XOR, BOOL, kids(2));
        if (k == 9) return mk(EQ, BOOL, kids(2));
        if (k == 10 && g.ite) return mk(ITE, BOOL, kids(3));
        if (k == 11 && g.let) return let_term(BOOL, d);
        if (k == 12)
        {
            auto fs = funs_of(BOOL);
            if (!fs.empty()) return app(r.pick(fs), d);
        }
        if (k == 13 && g.distinct) return mk(DISTINCT, BOOL, kids(2));
        if (k == 14) return r.chance(1, 8) ? (r.chance(1, 2) ? mk_true() : mk_false()) : bool_var();
        return arith ? atom(d > 2 ? 2 : 1) : bool_var();
    }

    // ------------------------------------------------------------ whole scripts
    void names(Script& s, std::string const& logic)
    {
        Cmd c;
        c.kind = C_LOGIC;
        c.text = logic;
        s.cmds.push_back(c);
        // names that differ only in what a careless reader of quoted symbols would drop
        Rng peek = r;
        bool near = g.quoted && peek.chance(1, 2);
        auto close = [&](std::string n, int i) -> std::string {
            switch (i)
            {
            case 0: return n;
            case 1: return n + " ";
            case 2: return " " + n;
            case 3: return n + "\n";
            case 4: return n + "\t";
            case 5: return n + ";";
            case 6: return "(" + n + ")";
            case 7: return std::string(1, char(toupper(n[0]))) + " ";
            default: return n + "\"" + std::to_string(i);
            }
        };
        for (int i = 0; i < g.bools; ++i) bools.push_back(near ? close("b", i) : (g.quoted && i == 0 ? "b o'" : "b") + std::to_string(i));
        for (int i = 0; i < g.reals; ++i) reals.push_back(near ? close("x", i) : (g.quoted && i == 1 ? "x y(" : "x") + std::to_string(i));
        for (auto& b : bools) decl(s, b, {}, BOOL);
        for (auto& x : reals) decl(s, x, {}, REAL);
        for (int i = 0; i < g.funs; ++i)
        {
            Fun f;
            f.name = near ? close("f", i) : "f" + std::to_string(i);
            int n = r.chance(3, 5) ? 1 : r.chance(2, 3) ? 2 : r.chance(4, 5) ? 3 : 4 + r.below(3);
            for (int j = 0; j < n; ++j) f.args.push_back(g.bool_uf && r.chance(1, 3) ? BOOL : REAL);
            f.ret = g.bool_uf && r.chance(1, 3) ? BOOL : REAL;
            funs.push_back(f);
            decl(s, f.name, f.args, f.ret);
        }
    }
    void decl(Script& s, std::string const& n, std::vector<Sort> a, Sort ret)
    {
        Cmd c;
        c.kind = C_DECL;
        c.fun.name = n;
        c.fun.args = std::move(a);
        c.fun.ret = ret;
        Rng peek = r;
        for (char k : n) peek.s += static_cast<unsigned char>(k) * 977;
        if (c.fun.args.empty() && r.s % 3 == 0 && peek.chance(1, 2)) c.text = "const";
        s.cmds.push_back(c);
    }
    void define(Script& s)
    {
        int n = 1 + r.below(2);
        for (int i = 0; i < n; ++i)
        {
            Fun f;
            f.defined = true;
            f.name = "d" + std::to_string(i);
            int k = g.params ? r.below(3) : 0;
            for (int j = 0; j < k; ++j)
            {
                f.params.push_back("p" + std::to_string(j));
                f.args.push_back(r.chance(3, 4) ? REAL : BOOL);
                locals.emplace_back(f.params.back(), f.args.back());
            }
            f.ret = r.chance(1, 2) ? REAL : BOOL;
            bool l = g.let;
            f.body = f.ret == REAL ? real(2) : boolean(2);
            g.let = l;
            locals.clear();
            atom_pool.clear();
            Cmd c;
            c.kind = C_DEFINE;
            c.fun = f;
            s.cmds.push_back(c);
            defs.push_back(f);
        }
    }
    void add_assert(Script& s, P t)
    {
        Cmd c;
        c.kind = C_ASSERT;
        c.term = std::move(t);
        s.cmds.push_back(c);
    }
    // a short interval and many values of it that are excluded
    void narrow(Script& s)
    {
        P x = real_var();
        long k = r.range(-3, 2), den = r.chance(1, 3) ? 1 + r.below(4) : 1;
        P lo = mk_num(mpq_class(k, 1) / den), hi = mk_num(mpq_class(k + 1, 1) / den);
        add_assert(s, mk(r.chance(2, 3) ? LT : LE, BOOL, {lo, x}));
        add_assert(s, mk(r.chance(2, 3) ? LT : LE, BOOL, {x, hi}));
        int n = 1 + r.below(5);
        for (int i = 0; i < n; ++i)
        {
            long grid = 1l << (1 + r.below(4)), j = r.chance(1, 3) ? grid / 2 : r.chance(1, 2) ? (r.chance(1, 2) ? 1 : grid - 1) : r.below(grid + 1);
            mpq_class q = (mpq_class(k, 1) + mpq_class(j, grid)) / den;
            P t = mk(r.chance(3, 4) ? NOT : OR, BOOL, {mk(EQ, BOOL, {x, mk_num(q)})});
            if (t->op == OR) t = mk(OR, BOOL, {mk(LT, BOOL, {x, mk_num(q)}), mk(GT, BOOL, {x, mk_num(q)})});
            add_assert(s, t);
        }
    }
    static void add(Script& s, CmdKind k)
    {
        Cmd c;
        c.kind = k;
        s.cmds.push_back(c);
    }
    P lin_atom(int maxv)
    {
        static Op ops[] = {LE, LT, GE, GT, EQ};
        return mk(ops[r.below(r.chance(1, 3) ? 5 : 4)], BOOL, {linear(1 + r.below(maxv)), constant()});
    }
    // random clauses over a pool of atoms
    void clausal(Script& s, int natoms, int nclauses)
    {
        std::vector<P> pool;
        for (auto& b : bools) pool.push_back(mk_var(b, BOOL));
        for (int i = 0; i < natoms; ++i) pool.push_back(lin_atom(1 + r.below(3)));
        for (int i = 0; i < nclauses; ++i)
        {
            int w = r.chance(1, 4) ? 1 : 2 + r.below(2);
            std::vector<P> k;
            for (int j = 0; j < w; ++j)
            {
                P a = r.pick(pool);
                k.push_back(r.chance(1, 2) ? mk(NOT, BOOL, {a}) : a);
            }
            add_assert(s, k.size() == 1 ? k[0] : mk(OR, BOOL, k));
        }
    }
    // constraints satisfied by a hidden point, tight around it, optionally plus one that cuts it off
    void planted(Script& s, int n)
    {
        std::map<std::string, mpq_class> pt;
        for (auto& x : reals)
        {
            pt[x] = mpq_class(r.range(-5, 5), 1 + r.below(3));
            pt[x].canonicalize();
        }
        for (int i = 0; i < n; ++i)
        {
            std::vector<P> k;
            mpq_class sum = 0;
            int m = 1 + r.below(std::min<int>(3, reals.size()));
            for (int j = 0; j < m; ++j)
            {
                auto& x = r.pick(reals);
                mpq_class q = number();
                if (q == 0) q = 1;
                k.push_back(mk(MUL, REAL, {num_term(q), mk_var(x, REAL)}));
                sum += q * pt[x];
            }
            P e = k.size() == 1 ? k[0] : mk(ADD, REAL, k);
            P a;
            int c = r.below(8);
            mpq_class slack(r.below(3), 1 + r.below(3));
            slack.canonicalize();
            if (c < 3) a = mk(LE, BOOL, {e, num_term(sum + slack)});
            else if (c < 5) a = mk(GE, BOOL, {e, num_term(sum - slack)});
            else if (c == 5) a = mk(LT, BOOL, {e, num_term(sum + slack + (slack == 0 ? 1 : 0))});
            else if (c == 6) a = mk(EQ, BOOL, {e, num_term(sum)});
            else a = mk(NOT, BOOL, {mk(EQ, BOOL, {e, num_term(sum + 1)})});
            if (r.chance(1, 3) && !bools.empty())
            {
                P b = mk_var(r.pick(bools), BOOL);
                a = mk(OR, BOOL, {a, r.chance(1, 2) ? b : mk(NOT, BOOL, {b})});
            }
            add_assert(s, a);
        }
        if (r.chance(1, 2)) add_assert(s, lin_atom(2));
    }
    // linear expression over distinct leaves; adds up its value at the point
    P wide(int m, std::map<std::string, mpq_class> const& pt, mpq_class& sum)
    {
        std::vector<std::string> xs = reals;
        for (size_t i = xs.size(); i > 1; --i) std::swap(xs[i - 1], xs[r.below(i)]);
        m = std::min<int>(m, xs.size());
        std::vector<P> k;
        for (int i = 0; i < m; ++i)
        {
            mpq_class q = r.chance(1, 2) ? mpq_class(r.chance(1, 2) ? 1 : -1) : number();
            if (q == 0) q = 1;
            P v = mk_var(xs[i], REAL);
            k.push_back(q == 1 ? v : mk(MUL, REAL, {num_term(q), v}));
            sum += q * pt.at(xs[i]);
        }
        return k.size() == 1 ? k[0] : mk(ADD, REAL, k);
    }
    // disjunctions of wide linear constraints, tight around a hidden point: many conflicts and backjumps
    void dense(Script& s, int n, int maxv)
    {
        std::map<std::string, mpq_class> pt;
        for (auto& x : reals)
        {
            pt[x] = r.chance(1, 3) ? mpq_class(r.range(-7, 7), 1 + r.below(3)) : mpq_class(r.range(-3, 3));
            pt[x].canonicalize();
        }
        bool honest = r.chance(1, 2); // every clause is true at the point
        int eqs = r.below(4);
        for (int i = 0; i < n; ++i)
        {
            int w = r.chance(1, 4) ? 1 : 2 + r.below(2);
            int keep = honest ? r.below(w) : -1;
            std::vector<P> k;
            for (int j = 0; j < w; ++j)
            {
                if (!bools.empty() && r.chance(1, 5) && j != keep)
                {
                    P b = mk_var(r.pick(bools), BOOL);
                    k.push_back(r.chance(1, 2) ? b : mk(NOT, BOOL, {b}));
                    continue;
                }
                mpq_class sum = 0;
                P e = wide(1 + r.below(maxv), pt, sum);
                mpq_class off(r.below(4), 1 + r.below(2));
                off.canonicalize();
                bool holds = j == keep || r.chance(1, 3);
                P a;
                int c = r.below(8 + eqs);
                if (c < 3) a = mk(LE, BOOL, {e, num_term(holds ? mpq_class(sum + off) : mpq_class(sum - off - 1))});
                else if (c < 6) a = mk(GE, BOOL, {e, num_term(holds ? mpq_class(sum - off) : mpq_class(sum + off + 1))});
                else if (c == 6) a = mk(LT, BOOL, {e, num_term(holds ? mpq_class(sum + off + 1) : mpq_class(sum - off))});
                else if (c == 7) a = mk(NOT, BOOL, {mk(EQ, BOOL, {e, num_term(holds ? mpq_class(sum + 1) : sum)})});
                else a = mk(EQ, BOOL, {e, num_term(holds ? sum : mpq_class(sum + off + 1))});
                k.push_back(a);
            }
            add_assert(s, k.size() == 1 ? k[0] : mk(OR, BOOL, k));
        }
        if (!funs.empty()) congruence(s, 2 + r.below(4));
    }
    // orderings / equality chains that close into a cycle
    void chain(Script& s)
    {
        int n = reals.size();
        if (n < 2) { clausal(s, 3, 4); return; }
        int len = 2 + r.below(n);
        for (int i = 0; i < len; ++i)
        {
            P a = mk_var(reals[i % n], REAL), b = mk_var(reals[(i + 1) % n], REAL);
            int c = r.below(6);
            P t;
            if (c < 2) t = mk(LE, BOOL, {a, b});
            else if (c == 2) t = mk(LT, BOOL, {a, b});
            else if (c == 3) t = mk(EQ, BOOL, {a, b});
            else if (c == 4) t = mk(LE, BOOL, {mk(ADD, REAL, {a, constant()}), b});
            else t = mk(OR, BOOL, {mk(LT, BOOL, {a, b}), mk(GT, BOOL, {a, b})});
            if (r.chance(1, 4) && !bools.empty()) t = mk(OR, BOOL, {t, mk_var(r.pick(bools), BOOL)});
            add_assert(s, t);
        }
        if (!funs.empty())
            for (int i = 0; i < 3; ++i)
            {
                Fun f = r.pick(funs);
                if (f.ret != REAL) continue;
                add_assert(s, mk(r.chance(1, 2) ? LT : EQ, BOOL, {app(f, 1), app(f, 1)}));
            }
        int extra = r.below(4);
        for (int i = 0; i < extra; ++i) add_assert(s, boolean(2));
    }
    // congruence: few argument values, many applications
    void congruence(Script& s, int n)
    {
        if (funs.empty()) { clausal(s, 4, 6); return; }
        for (int i = 0; i < n; ++i)
        {
            Fun f = r.pick(funs), h = r.pick(funs);
            P a = app(f, 1 + r.below(2));
            if (a->sort == BOOL)
            {
                add_assert(s, r.chance(1, 2) ? a : mk(NOT, BOOL, {a}));
                continue;
            }
            P b = h.ret == REAL && r.chance(1, 2) ? app(h, 1) : (r.chance(1, 2) ? real_var() : constant());
            static Op ops[] = {EQ, EQ, LT, LE, GT};
            P t = mk(ops[r.below(5)], BOOL, {a, b});
            if (r.chance(1, 4)) t = mk(NOT, BOOL, {t});
            if (r.chance(1, 3)) t = mk(OR, BOOL, {t, boolean(1)});
            add_assert(s, t);
        }
        for (int i = 0; i < n / 2; ++i)
            if (!reals.empty())
                add_assert(s, mk(r.chance(2, 3) ? EQ : LE, BOOL, {real_var(), r.chance(1, 2) ? constant() : real_var()}));
    }
};

// scale: 0 small (reference always affordable), 1 medium
inline Script gen_smt(Rng& r, bool uf, int scale, bool bool_uf = false, bool small = false)
{
    Script s;
    Gen G(r);
    auto& g = G.g;
    g.bools = r.below(4);
    g.reals = r.chance(1, 2) ? 1 + r.below(scale ? 7 : 5) : 3 + r.below(scale ? 6 : 4);
    g.funs = uf ? 1 + r.below(r.chance(1, 3) ? 4 : 2) : 0;
    g.bool_uf = uf && bool_uf;
    g.let = r.chance(1, 3);
    g.ite = r.chance(1, 2);
    g.define = r.chance(1, 4);
    g.distinct = r.chance(1, 3);
    g.decimals = r.chance(1, 3);
    g.big = r.chance(1, 5);
    g.quoted = r.chance(1, 8);
    G.names(s, uf ? "QF_UFLRA" : "QF_LRA");
    if (g.define) G.define(s);
    {
        Rng peek = r;
        if (Rng(mix(peek.next(), 0x4a)).chance(1, 12))
        {
            Rng old = r;
            r = Rng(peek.next());
            G.narrow(s);
            r = old;
        }
    }
    int style = r.below(uf ? 6 : 5);
    int mul = scale ? 2 : 1;
    if (r.chance(3, 10))
    {
        // wants several real variables
        int n = mul * (4 + r.below(12)), k = 2 + r.below(5);
        if (small) { n = 4 + n % 6; k = 2 + k % 2; }
        G.dense(s, n, k);
        return s;
    }
    switch (style)
    {
    case 0: G.clausal(s, mul * (3 + r.below(8)), mul * (4 + r.below(16))); break;
    case 1: G.planted(s, mul * (3 + r.below(8))); break;
    case 2: G.chain(s); break;
    case 3:
    case 4:
    {
        int n = mul * (1 + r.below(5));
        for (int i = 0; i < n; ++i) G.add_assert(s, G.boolean(1 + r.below(4)));
        break;
    }
    case 5: G.congruence(s, mul * (2 + r.below(5))); break;
    }
    return s;
}

// Long searches: many Boolean variables and simple atoms under short clauses near the point where they
// become unsatisfiable, so that conflicts jump back over several levels
inline Script gen_busy(Rng& r, int scale)
{
    Script s;
    Gen G(r);
    auto& g = G.g;
    g.bools = 6 + r.below(scale == 2 ? 50 : scale ? 24 : 12);
    g.reals = 2 + r.below(4);
    G.names(s, "QF_LRA");
    std::vector<P> pool;
    for (auto& b : G.bools) pool.push_back(mk_var(b, BOOL));
    int na = 2 + r.below(scale ? 14 : 8);
    for (int i = 0; i < na; ++i)
    {
        P x = G.real_var(), y = G.real_var();
        P l = x->name == y->name || r.chance(1, 2) ? x : mk(r.chance(1, 2) ? SUB : ADD, REAL, {x, y});
        static Op ops[] = {LE, LT, GE, GT, EQ};
        pool.push_back(mk(ops[r.below(r.chance(1, 5) ? 5 : 4)], BOOL, {l, mk_num(mpq_class(r.range(-3, 3)))}));
    }
    // share of clauses of two and of three literals, close to where the set becomes unsatisfiable
    int two = 10 + r.below(75);
    double near = (75 + static_cast<double>(r.below(45))) / 100, vars = static_cast<double>(pool.size());
    int n2 = static_cast<int>(vars * two / 100), n3 = static_cast<int>(vars * 4.2 * near * (100 - two) / 100);
    bool planted = r.chance(1, 3);
    std::vector<bool> point;
    for (size_t i = 0; i < pool.size(); ++i) point.push_back(r.chance(1, 2));
    for (int i = 0; i < n2 + n3; ++i)
    {
        int w = i < n2 ? 2 : r.chance(9, 10) ? 3 : 4 + r.below(5);
        if (i == 0 && r.chance(1, 6)) w = 1;
        std::vector<P> k;
        bool holds = !planted;
        for (int j = 0; j < w; ++j)
        {
            size_t x = r.below(pool.size());
            bool neg = r.chance(1, 2);
            if (j + 1 == w && !holds) neg = !point[x];
            holds |= neg != point[x];
            k.push_back(neg ? mk(NOT, BOOL, {pool[x]}) : pool[x]);
        }
        G.add_assert(s, k.size() == 1 ? k[0] : mk(OR, BOOL, k));
    }
    if (r.chance(1, 4))
    {
        // every variable takes one of a few values, neighbours take different ones
        int m = 2 + r.below(2);
        auto& xs = G.reals;
        for (auto& x : xs)
        {
            std::vector<P> k;
            for (int v = 0; v < m + static_cast<int>(r.below(2)); ++v) k.push_back(mk(EQ, BOOL, {mk_var(x, REAL), mk_num(mpq_class(v))}));
            G.add_assert(s, mk(OR, BOOL, k));
        }
        for (size_t i = 0; i < xs.size(); ++i)
            for (size_t j = i + 1; j < xs.size(); ++j)
                if (r.chance(3, 4)) G.add_assert(s, mk(NOT, BOOL, {mk(EQ, BOOL, {mk_var(xs[i], REAL), mk_var(xs[j], REAL)})}));
    }
    return s;
}

// ---------------------------------------------------------------- propositional clause sets

struct Cnf {
    int vars = 0;
    std::vector<std::vector<int>> clauses;
    std::string dimacs() const
    {
        std::ostringstream o;
        o << "p cnf " << vars << " " << clauses.size() << "\n";
        for (auto& c : clauses)
        {
            for (int l : c) o << l << " ";
            o << "0\n";
        }
        return o.str();
    }
};

inline Cnf gen_cnf(Rng& r, int scale)
{
    Cnf f;
    int style = r.below(12);
    auto lit = [&](int v) { return r.chance(1, 2) ? v : -v; };
    if (style == 7 || style == 6)
    {
        // pigeonhole n+1 into n with noise
        int n = 2 + r.below(scale ? 3 : 2);
        auto id = [&](int p, int h) { return p * n + h + 1; };
        f.vars = (n + 1) * n;
        for (int p = 0; p <= n; ++p)
        {
            std::vector<int> c;
            for (int h = 0; h < n; ++h) c.push_back(id(p, h));
            f.clauses.push_back(c);
        }
        for (int h = 0; h < n; ++h)
            for (int p = 0; p <= n; ++p)
                for (int q = p + 1; q <= n; ++q) f.clauses.push_back({-id(p, h), -id(q, h)});
        if (r.chance(1, 2)) f.clauses.erase(f.clauses.begin() + r.below(f.clauses.size()));
    }
    else if (style == 5)
    {
        // xor chain
        int n = 3 + r.below(scale ? 10 : 6);
        f.vars = n;
        for (int i = 0; i < n + (int)r.below(3); ++i)
        {
            int a = 1 + r.below(n), b = 1 + r.below(n), c = 1 + r.below(n);
            if (a == b || b == c || a == c) continue;
            int par = r.below(2);
            for (int m = 0; m < 8; ++m)
                if ((__builtin_popcount(m) & 1) == par)
                    f.clauses.push_back({m & 1 ? -a : a, m & 2 ? -b : b, m & 4 ? -c : c});
        }
    }
    else if (style == 8)
    {
        // wide clauses, often true at a hidden point
        int n = 6 + r.below(scale ? 60 : 20);
        f.vars = n;
        std::vector<bool> pt(n + 1);
        for (int i = 1; i <= n; ++i) pt[i] = r.chance(1, 2);
        bool honest = r.chance(1, 2);
        int m = n * (2 + r.below(6)), maxw = 3 + r.below(9);
        for (int i = 0; i < m; ++i)
        {
            std::vector<int> c;
            int w = r.chance(1, 2) ? 2 + r.below(2) : 2 + r.below(maxw);
            for (int j = 0; j < w; ++j)
            {
                int l = lit(1 + r.below(n));
                bool dup = false;
                for (int o : c) dup |= o == l || o == -l;
                if (!dup) c.push_back(l);
            }
            if (honest && std::none_of(c.begin(), c.end(), [&](int l) { return pt[std::abs(l)] == (l > 0); })) c[0] = -c[0];
            f.clauses.push_back(c);
        }
    }
    else if (style == 9)
    {
        // colouring of a random graph
        int n = 4 + r.below(scale ? 16 : 6), k = 2 + r.below(3);
        f.vars = n * k;
        for (int i = 0; i < n; ++i)
        {
            std::vector<int> c;
            for (int j = 0; j < k; ++j) c.push_back(i * k + j + 1);
            f.clauses.push_back(c);
            if (r.chance(1, 2))
                for (int j = 0; j < k; ++j)
                    for (int h = j + 1; h < k; ++h) f.clauses.push_back({-c[j], -c[h]});
        }
        int e = n * (1 + r.below(2 * k));
        for (int i = 0; i < e; ++i)
        {
            int a = r.below(n), b = r.below(n);
            if (a == b) continue;
            for (int j = 0; j < k; ++j) f.clauses.push_back({-(a * k + j + 1), -(b * k + j + 1)});
        }
    }
    else if (style == 10)
    {
        // long implication chains tied together
        int n = 10 + r.below(scale ? 100 : 25);
        f.vars = n;
        int m = n + r.below(n);
        for (int i = 0; i < m; ++i)
        {
            int a = 1 + r.below(n), b = r.chance(1, 2) ? 1 + a % n : 1 + r.below(n);
            if (a != b) f.clauses.push_back({r.chance(4, 5) ? -a : a, r.chance(4, 5) ? b : -b});
        }
        for (int i = r.below(n); i > 0; --i)
        {
            int a = 1 + r.below(n), b = 1 + r.below(n), c = 1 + r.below(n);
            if (a != b && b != c && a != c) f.clauses.push_back({lit(a), lit(b), lit(c)});
        }
        if (r.chance(1, 3)) f.clauses.push_back({lit(1 + r.below(n))});
    }
    else if (style == 11)
    {
        // random 3-SAT around the threshold
        int n = scale ? 20 + r.below(40) : 10 + r.below(20);
        f.vars = n;
        int m = static_cast<int>(n * (3.7 + r.below(120) / 100.0));
        for (int i = 0; i < m; ++i)
        {
            std::set<int> v;
            while (v.size() < 3) v.insert(1 + r.below(n));
            std::vector<int> c;
            for (int x : v) c.push_back(lit(x));
            f.clauses.push_back(c);
        }
    }
    else
    {
        int n = 3 + r.below(scale ? 40 : 12);
        f.vars = n;
        double ratio = 2.0 + r.below(300) / 100.0;
        int m = static_cast<int>(n * ratio);
        for (int i = 0; i < m; ++i)
        {
            std::vector<int> c;
            int w = r.chance(1, 12) ? 1 + r.below(5) : (r.chance(1, 4) ? 2 : 3);
            for (int j = 0; j < w; ++j)
            {
                int l = lit(1 + r.below(n));
                // no duplicate or opposite literals (those are an input-normalisation question)
                bool dup = false;
                for (int o : c) dup |= o == l || o == -l;
                if (!dup) c.push_back(l);
            }
            f.clauses.push_back(c);
        }
    }
    // shuffle
    for (size_t i = f.clauses.size(); i > 1; --i) std::swap(f.clauses[i - 1], f.clauses[r.below(i)]);
    return f;
}

} // namespace sim
