// Reference model: a small, independent decision procedure (CDCL + exact general simplex, with
// Ackermann expansion for uninterpreted functions). Shares no code with the solver under test.
#pragma once
#include "ast.hpp"

namespace sim {

struct LinExp {
    std::map<int, mpq_class> c;
    mpq_class k = 0;
    void add(LinExp const& o, mpq_class const& f)
    {
        for (auto& [v, q] : o.c)
        {
            mpq_class n = c.count(v) ? c[v] + q * f : mpq_class(q * f);
            if (n == 0) c.erase(v); else c[v] = n;
        }
        k += o.k * f;
    }
    static LinExp var(int v) { LinExp r; r.c[v] = 1; return r; }
    static LinExp num(mpq_class q) { LinExp r; r.k = std::move(q); return r; }
    std::string key() const
    {
        std::string s;
        for (auto& [v, q] : c) s += std::to_string(v) + ":" + q.get_str() + ",";
        return s + "|" + k.get_str();
    }
};

struct RefLimit : std::runtime_error { using std::runtime_error::runtime_error; };

class Ref {
public:
    using Lit = int; // +-(var+1)
    Ref() { int v = newBool(); T = v + 1; addClause({T}); }
    Lit T;
    uint64_t work = 0, work_limit = 2000000;

    int newBool()
    {
        assign.push_back(0); level.push_back(0); reason.push_back(-1); act.push_back(0); phase.push_back(-1);
        atom_of.push_back(-1); seen.push_back(0);
        watches.emplace_back(); watches.emplace_back();
        return static_cast<int>(assign.size()) - 1;
    }
    int newReal()
    {
        int s = newS();
        real_s.push_back(s);
        return static_cast<int>(real_s.size()) - 1;
    }
    int numBool() const { return assign.size(); }

    // literal for e <= 0 (e < 0 when strict)
    Lit leq(LinExp e, bool strict)
    {
        if (e.c.empty()) return (strict ? e.k < 0 : e.k <= 0) ? T : -T;
        mpq_class lead = e.c.begin()->second;
        mpq_class f = 1 / lead;
        LinExp n;
        n.add(e, f);
        bool neg = lead < 0; // e <= 0 iff n >= 0 iff not n < 0
        if (neg) strict = !strict;
        std::string key = n.key() + (strict ? "<" : "<=");
        auto it = atoms.find(key);
        int v;
        if (it != atoms.end()) v = it->second;
        else
        {
            v = newBool();
            atoms[key] = v;
            LinExp form = n;
            form.k = 0;
            int s;
            if (form.c.size() == 1) s = real_s[form.c.begin()->first];
            else
            {
                std::string fk = form.key();
                auto f2 = forms.find(fk);
                if (f2 != forms.end()) s = f2->second;
                else
                {
                    s = newS();
                    forms[fk] = s;
                    std::map<int, mpq_class> row;
                    for (auto& [rv, q] : form.c) addTo(row, real_s[rv], q);
                    // substitute basic variables
                    std::map<int, mpq_class> r2;
                    for (auto& [x, q] : row)
                    {
                        if (row_of[x] < 0) addTo(r2, x, q);
                        else for (auto& [y, p] : rows[row_of[x]].c) addTo(r2, y, q * p);
                    }
                    row_of[s] = rows.size();
                    rows.push_back({s, r2});
                    DR val;
                    for (auto& [x, q] : r2) { val.r += q * beta[x].r; val.d += q * beta[x].d; }
                    beta[s] = val;
                }
            }
            atom_of[v] = at.size();
            at.push_back({s, -n.k, strict});
        }
        return neg ? -(v + 1) : v + 1;
    }
    Lit mkAnd(std::vector<Lit> ls)
    {
        std::sort(ls.begin(), ls.end());
        ls.erase(std::unique(ls.begin(), ls.end()), ls.end());
        if (ls.empty()) return T;
        if (ls.size() == 1) return ls[0];
        auto it = ands.find(ls);
        if (it != ands.end()) return it->second;
        Lit r = newBool() + 1;
        std::vector<Lit> big{r};
        for (Lit l : ls) { addClause({-r, l}); big.push_back(-l); }
        addClause(big);
        ands[ls] = r;
        return r;
    }
    Lit mkOr(std::vector<Lit> ls)
    {
        for (auto& l : ls) l = -l;
        return -mkAnd(ls);
    }
    Lit mkIff(Lit a, Lit b) { return mkAnd({mkOr({-a, b}), mkOr({a, -b})}); }
    Lit eq(LinExp const& e)
    {
        LinExp m;
        m.add(e, -1);
        return mkAnd({leq(e, false), leq(m, false)});
    }
    void addClause(std::vector<Lit> c)
    {
        std::sort(c.begin(), c.end());
        c.erase(std::unique(c.begin(), c.end()), c.end());
        for (Lit l : c) if (std::binary_search(c.begin(), c.end(), -l)) return;
        pending.push_back(std::move(c));
    }
    // Is the conjunction of all clauses and the assumptions satisfiable?
    bool solve(std::vector<Lit> const& assumptions = {})
    {
        backtrack(0);
        if (dead) return false;
        flush();
        if (dead) return false;
        size_t na = 0;
        for (;;)
        {
            work += 1 + numBool() / 8;
            if (work > work_limit) throw RefLimit("reference work limit");
            int confl = propagate();
            if (confl >= 0)
            {
                if (dl() == 0) { dead = true; return false; }
                analyze(confl);
                continue;
            }
            std::vector<Lit> ex;
            if (!theory(ex))
            {
                // all literals in ex are false
                int mx = 0;
                for (Lit l : ex) mx = std::max(mx, level[var(l)]);
                if (mx == 0) { dead = true; return false; }
                backtrack(mx);
                clauses.push_back(ex);
                attach(clauses.size() - 1);
                analyze(clauses.size() - 1);
                continue;
            }
            // decide
            if (dl() < static_cast<int>(assumptions.size()))
            {
                Lit a = assumptions[dl()];
                na = dl();
                (void)na;
                if (val(a) < 0) { backtrack(0); return false; }
                lim.push_back(trail.size()); tlim.push_back(tb.size());
                if (val(a) == 0) enqueue(a, -1);
                continue;
            }
            int best = -1;
            for (int v = 0; v < numBool(); ++v)
                if (!assign[v] && (best < 0 || act[v] > act[best])) best = v;
            if (best < 0) { extract(); backtrack(0); return true; }
            lim.push_back(trail.size()); tlim.push_back(tb.size());
            enqueue(phase[best] > 0 ? best + 1 : -(best + 1), -1);
        }
    }
    bool model(Lit l) const { return l > 0 ? mb[l - 1] : !mb[-l - 1]; }
    mpq_class const& real(int r) const { return mr[r]; }

private:
    struct DR {
        mpq_class r = 0, d = 0;
        bool operator<(DR const& o) const { return r < o.r || (r == o.r && d < o.d); }
        bool operator==(DR const& o) const { return r == o.r && d == o.d; }
    };
    struct Row { int b; std::map<int, mpq_class> c; };
    struct Atom { int s; mpq_class bound; bool strict; };
    struct Bnd { bool has = false; DR v; Lit why = 0; };

    std::vector<signed char> assign;
    std::vector<int> level, reason;
    std::vector<double> act;
    std::vector<signed char> phase;
    std::vector<int> atom_of;
    std::vector<char> seen;
    std::vector<std::vector<int>> watches;
    std::vector<std::vector<Lit>> clauses, pending;
    std::vector<Lit> trail;
    std::vector<size_t> lim, tlim;
    size_t qhead = 0, thead = 0;
    double inc = 1;
    bool dead = false;
    std::map<std::string, int> atoms, forms;
    std::map<std::vector<Lit>, Lit> ands;
    std::vector<Atom> at;
    std::vector<int> real_s;
    std::vector<int> row_of;
    std::vector<DR> beta;
    std::vector<Bnd> lo, up;
    std::vector<Row> rows;
    std::vector<std::tuple<int, bool, Bnd>> tb;
    std::vector<bool> mb;
    std::vector<mpq_class> mr;

    static int var(Lit l) { return (l > 0 ? l : -l) - 1; }
    static int idx(Lit l) { return 2 * var(l) + (l < 0); }
    int val(Lit l) const { int a = assign[var(l)]; return l > 0 ? a : -a; }
    int dl() const { return lim.size(); }
    static void addTo(std::map<int, mpq_class>& m, int x, mpq_class const& q)
    {
        auto it = m.find(x);
        if (it == m.end()) { if (q != 0) m[x] = q; return; }
        it->second += q;
        if (it->second == 0) m.erase(it);
    }
    int newS()
    {
        row_of.push_back(-1); beta.emplace_back(); lo.emplace_back(); up.emplace_back();
        return static_cast<int>(beta.size()) - 1;
    }
    void attach(int ci)
    {
        auto& c = clauses[ci];
        if (c.size() < 2) return;
        // watch the two literals with the highest levels (unassigned first)
        auto key = [&](Lit l) { return val(l) >= 0 ? 1 << 30 : level[var(l)]; };
        for (int k = 0; k < 2; ++k)
            for (size_t j = k + 1; j < c.size(); ++j)
                if (key(c[j]) > key(c[k])) std::swap(c[j], c[k]);
        watches[idx(-c[0])].push_back(ci);
        watches[idx(-c[1])].push_back(ci);
    }
    void flush()
    {
        for (auto& c : pending)
        {
            // level 0 only
            std::vector<Lit> d;
            bool sat = false;
            for (Lit l : c)
            {
                if (val(l) > 0) sat = true;
                if (val(l) == 0) d.push_back(l);
            }
            if (sat) continue;
            if (d.empty()) { dead = true; break; }
            if (d.size() == 1) { enqueue(d[0], -1); continue; }
            clauses.push_back(d);
            attach(clauses.size() - 1);
        }
        pending.clear();
    }
    void enqueue(Lit l, int why)
    {
        int v = var(l);
        assign[v] = l > 0 ? 1 : -1;
        level[v] = dl();
        reason[v] = why;
        trail.push_back(l);
    }
    int propagate()
    {
        while (qhead < trail.size())
        {
            Lit p = trail[qhead++]; // p true; clauses watching -p are in watches[idx(p)]
            auto& ws = watches[idx(p)];
            size_t j = 0;
            for (size_t i = 0; i < ws.size(); ++i)
            {
                int ci = ws[i];
                auto& c = clauses[ci];
                ++work;
                if (c[0] == -p) std::swap(c[0], c[1]);
                if (val(c[0]) > 0) { ws[j++] = ci; continue; }
                bool moved = false;
                for (size_t k = 2; k < c.size(); ++k)
                    if (val(c[k]) >= 0)
                    {
                        std::swap(c[1], c[k]);
                        watches[idx(-c[1])].push_back(ci);
                        moved = true;
                        break;
                    }
                if (moved) continue;
                ws[j++] = ci;
                if (val(c[0]) < 0)
                {
                    for (size_t k = i + 1; k < ws.size(); ++k) ws[j++] = ws[k];
                    ws.resize(j);
                    return ci;
                }
                enqueue(c[0], ci);
            }
            ws.resize(j);
        }
        return -1;
    }
    void bump(int v)
    {
        if ((act[v] += inc) > 1e100)
        {
            for (auto& a : act) a *= 1e-100;
            inc *= 1e-100;
        }
    }
    // conflicting clause; its highest level becomes the conflict level
    void analyze(int ci)
    {
        int mx = 0;
        for (Lit l : clauses[ci]) mx = std::max(mx, level[var(l)]);
        if (mx == 0) { dead = true; backtrack(0); pending.push_back({}); return; }
        if (mx < dl()) backtrack(mx);
        std::vector<Lit> learnt{0};
        int count = 0;
        Lit p = 0;
        size_t ti = trail.size();
        std::vector<int> clear;
        int cur = ci;
        do
        {
            for (Lit q : clauses[cur])
            {
                if (q == p) continue;
                int v = var(q);
                if (seen[v] || level[v] == 0) continue;
                seen[v] = 1;
                clear.push_back(v);
                bump(v);
                if (level[v] == dl()) ++count;
                else learnt.push_back(q);
            }
            while (!seen[var(trail[--ti])]) {}
            p = trail[ti];
            cur = reason[var(p)];
            --count;
            if (count > 0 && cur < 0) throw std::logic_error("ref: analyze");
        } while (count > 0);
        learnt[0] = -p;
        for (int v : clear) seen[v] = 0;
        inc *= 1.05;
        int bl = 0;
        for (size_t i = 1; i < learnt.size(); ++i) bl = std::max(bl, level[var(learnt[i])]);
        backtrack(bl);
        if (learnt.size() == 1) { enqueue(learnt[0], -1); return; }
        clauses.push_back(learnt);
        // keep learnt[0] as first watch
        auto& c = clauses.back();
        for (size_t i = 2; i < c.size(); ++i) if (level[var(c[i])] > level[var(c[1])]) std::swap(c[i], c[1]);
        watches[idx(-c[0])].push_back(clauses.size() - 1);
        watches[idx(-c[1])].push_back(clauses.size() - 1);
        enqueue(c[0], clauses.size() - 1);
    }
    void backtrack(int l)
    {
        if (dl() <= l) return;
        for (size_t i = trail.size(); i-- > lim[l];)
        {
            phase[var(trail[i])] = assign[var(trail[i])];
            assign[var(trail[i])] = 0;
        }
        trail.resize(lim[l]);
        for (size_t i = tb.size(); i-- > tlim[l];)
        {
            auto& [s, isup, old] = tb[i];
            (isup ? up : lo)[s] = old;
        }
        tb.resize(tlim[l]);
        lim.resize(l);
        tlim.resize(l);
        qhead = std::min(qhead, trail.size());
        thead = std::min(thead, trail.size());
    }
    void update(int x, DR const& v)
    {
        DR d{v.r - beta[x].r, v.d - beta[x].d};
        for (auto& row : rows)
        {
            auto it = row.c.find(x);
            if (it == row.c.end()) continue;
            beta[row.b].r += it->second * d.r;
            beta[row.b].d += it->second * d.d;
        }
        beta[x] = v;
    }
    bool theory(std::vector<Lit>& ex)
    {
        for (; thead < trail.size(); ++thead)
        {
            Lit l = trail[thead];
            int a = atom_of[var(l)];
            if (a < 0) continue;
            auto& A = at[a];
            DR b;
            b.r = A.bound;
            bool isup = l > 0;
            if (isup) b.d = A.strict ? -1 : 0;
            else b.d = A.strict ? 0 : 1;
            if (isup)
            {
                if (up[A.s].has && !(b < up[A.s].v)) continue;
                if (lo[A.s].has && b < lo[A.s].v) { ex = {-l, -lo[A.s].why}; return false; }
                tb.emplace_back(A.s, true, up[A.s]);
                up[A.s] = {true, b, l};
                if (row_of[A.s] < 0 && b < beta[A.s]) update(A.s, b);
            }
            else
            {
                if (lo[A.s].has && !(lo[A.s].v < b)) continue;
                if (up[A.s].has && up[A.s].v < b) { ex = {-l, -up[A.s].why}; return false; }
                tb.emplace_back(A.s, false, lo[A.s]);
                lo[A.s] = {true, b, l};
                if (row_of[A.s] < 0 && beta[A.s] < b) update(A.s, b);
            }
        }
        for (;;)
        {
            work += 2 + rows.size() * 4;
            if (work > work_limit) throw RefLimit("reference work limit");
            // Bland: smallest violated basic variable
            int bi = -1;
            for (size_t i = 0; i < rows.size(); ++i)
            {
                int x = rows[i].b;
                if ((lo[x].has && beta[x] < lo[x].v) || (up[x].has && up[x].v < beta[x]))
                    if (bi < 0 || x < rows[bi].b) bi = i;
            }
            if (bi < 0) return true;
            int x = rows[bi].b;
            bool inc_needed = lo[x].has && beta[x] < lo[x].v;
            int y = -1;
            for (auto& [z, q] : rows[bi].c)
            {
                bool can = ((q > 0) == inc_needed) ? (!up[z].has || beta[z] < up[z].v) : (!lo[z].has || lo[z].v < beta[z]);
                if (can) { y = z; break; }
            }
            if (y < 0)
            {
                ex.clear();
                ex.push_back(inc_needed ? -lo[x].why : -up[x].why);
                for (auto& [z, q] : rows[bi].c)
                    ex.push_back(((q > 0) == inc_needed) ? -up[z].why : -lo[z].why);
                std::sort(ex.begin(), ex.end());
                ex.erase(std::unique(ex.begin(), ex.end()), ex.end());
                return false;
            }
            DR target = inc_needed ? lo[x].v : up[x].v;
            // pivot x and y
            Row& r = rows[bi];
            mpq_class a = r.c[y];
            DR dy{(target.r - beta[x].r) / a, (target.d - beta[x].d) / a};
            DR ny{beta[y].r + dy.r, beta[y].d + dy.d};
            for (auto& o : rows)
            {
                if (&o == &r) continue;
                auto it = o.c.find(y);
                if (it == o.c.end()) continue;
                beta[o.b].r += it->second * dy.r;
                beta[o.b].d += it->second * dy.d;
            }
            beta[x] = target;
            beta[y] = ny;
            std::map<int, mpq_class> nr; // y = (x - rest)/a
            for (auto& [z, q] : r.c) if (z != y) nr[z] = -q / a;
            nr[x] = 1 / a;
            r.c = nr;
            r.b = y;
            row_of[y] = bi;
            row_of[x] = -1;
            for (auto& o : rows)
            {
                if (&o == &r) continue;
                auto it = o.c.find(y);
                if (it == o.c.end()) continue;
                mpq_class q = it->second;
                o.c.erase(it);
                for (auto& [z, p] : nr) addTo(o.c, z, q * p);
                work += nr.size() * 4;
            }
        }
    }
    void extract()
    {
        mb.assign(assign.size(), false);
        for (size_t v = 0; v < assign.size(); ++v) mb[v] = assign[v] > 0;
        mpq_class eps = 1;
        for (size_t s = 0; s < beta.size(); ++s)
        {
            // lo.r + lo.d*eps <= beta.r + beta.d*eps
            if (lo[s].has && lo[s].v.r < beta[s].r && lo[s].v.d > beta[s].d)
                eps = std::min<mpq_class>(eps, (beta[s].r - lo[s].v.r) / (lo[s].v.d - beta[s].d));
            if (up[s].has && beta[s].r < up[s].v.r && beta[s].d > up[s].v.d)
                eps = std::min<mpq_class>(eps, (up[s].v.r - beta[s].r) / (beta[s].d - up[s].v.d));
        }
        mr.clear();
        for (int s : real_s) mr.push_back(beta[s].r + eps * beta[s].d);
    }
};

// Translates scripts into the reference model (SMT-LIB semantics; let and define-fun by value).
class Encoder {
public:
    Ref ref;
    struct EV { bool real = false; Ref::Lit b = 0; LinExp e; };
    std::map<std::string, Fun> defs;
    std::map<std::string, EV> consts;
    std::map<std::string, Fun> decls;

    void declare(Fun const& f)
    {
        decls[f.name] = f;
        if (f.args.empty()) consts[f.name] = fresh(f.ret);
    }
    void define(Fun const& f) { defs[f.name] = f; }
    Ref::Lit lit(P const& t)
    {
        Env env;
        return tr(t, env).b;
    }
    void assert_term(P const& t) { ref.addClause({lit(t)}); }

private:
    using Env = std::vector<std::pair<std::string, EV>>;
    struct AppRec { std::vector<EV> args; EV res; };
    std::map<std::string, std::vector<AppRec>> apps;
    std::map<std::string, EV> app_memo;

    EV fresh(Sort s)
    {
        EV v;
        if (s == BOOL) v.b = ref.newBool() + 1;
        else { v.real = true; v.e = LinExp::var(ref.newReal()); }
        return v;
    }
    static EV B(Ref::Lit l) { EV v; v.b = l; return v; }
    static EV R(LinExp e) { EV v; v.real = true; v.e = std::move(e); return v; }
    Ref::Lit equal(EV const& a, EV const& b)
    {
        if (!a.real) return ref.mkIff(a.b, b.b);
        LinExp d = a.e;
        d.add(b.e, -1);
        if (d.c.empty()) return d.k == 0 ? ref.T : -ref.T;
        return ref.eq(d);
    }
    Ref::Lit cmp(P const& t, Env& env, bool swap, bool strict)
    {
        EV a = tr(t->kids[0], env), b = tr(t->kids[1], env);
        LinExp d = swap ? b.e : a.e;
        d.add(swap ? a.e : b.e, -1);
        return ref.leq(d, strict);
    }
    EV tr(P const& t, Env& env)
    {
        switch (t->op)
        {
        case TRUE_: return B(ref.T);
        case FALSE_: return B(-ref.T);
        case CONST: return R(LinExp::num(t->val));
        case VAR:
        {
            for (size_t i = env.size(); i-- > 0;) if (env[i].first == t->name) return env[i].second;
            auto it = consts.find(t->name);
            if (it == consts.end()) throw Unknown("undeclared " + t->name);
            return it->second;
        }
        case LET:
        {
            std::vector<EV> vs;
            for (size_t i = 0; i < t->names.size(); ++i) vs.push_back(tr(t->kids[i], env));
            size_t m = env.size();
            for (size_t i = 0; i < vs.size(); ++i) env.emplace_back(t->names[i], vs[i]);
            EV r = tr(t->kids.back(), env);
            env.resize(m);
            return r;
        }
        case APP:
        {
            std::vector<EV> a;
            for (auto& k : t->kids) a.push_back(tr(k, env));
            auto d = defs.find(t->name);
            if (d != defs.end())
            {
                Env e2;
                for (size_t i = 0; i < a.size(); ++i) e2.emplace_back(d->second.params.at(i), a[i]);
                return tr(d->second.body, e2);
            }
            std::string key = t->name;
            for (auto& v : a) key += v.real ? "/" + v.e.key() : "/b" + std::to_string(v.b);
            auto it = app_memo.find(key);
            if (it != app_memo.end()) return it->second;
            EV r = fresh(t->sort);
            for (auto& o : apps[t->name])
            {
                std::vector<Ref::Lit> cl;
                bool skip = false;
                for (size_t i = 0; i < a.size(); ++i)
                {
                    Ref::Lit l = equal(a[i], o.args[i]);
                    if (l == -ref.T) skip = true;
                    cl.push_back(-l);
                }
                if (skip) continue;
                cl.push_back(equal(r, o.res));
                ref.addClause(cl);
            }
            apps[t->name].push_back({a, r});
            app_memo[key] = r;
            return r;
        }
        case AND: case OR:
        {
            std::vector<Ref::Lit> ls;
            for (auto& k : t->kids) ls.push_back(tr(k, env).b);
            return B(t->op == AND ? ref.mkAnd(ls) : ref.mkOr(ls));
        }
        case NOT: return B(-tr(t->kids[0], env).b);
        case IMPL: { auto a = tr(t->kids[0], env).b, b = tr(t->kids[1], env).b; return B(ref.mkOr({-a, b})); }
        case XOR: { auto a = tr(t->kids[0], env).b, b = tr(t->kids[1], env).b; return B(-ref.mkIff(a, b)); }
        case EQ: { auto a = tr(t->kids[0], env), b = tr(t->kids[1], env); return B(equal(a, b)); }
        case DISTINCT:
        {
            std::vector<EV> a;
            for (auto& k : t->kids) a.push_back(tr(k, env));
            std::vector<Ref::Lit> ls;
            for (size_t i = 0; i < a.size(); ++i)
                for (size_t j = i + 1; j < a.size(); ++j) ls.push_back(-equal(a[i], a[j]));
            return B(ref.mkAnd(ls));
        }
        case ITE:
        {
            auto c = tr(t->kids[0], env).b;
            EV x = tr(t->kids[1], env), y = tr(t->kids[2], env);
            if (!x.real) return B(ref.mkAnd({ref.mkOr({-c, x.b}), ref.mkOr({c, y.b})}));
            if (c == ref.T) return x;
            if (c == -ref.T) return y;
            std::string key = "ite/" + std::to_string(c) + "/" + x.e.key() + "/" + y.e.key();
            auto it = app_memo.find(key);
            if (it != app_memo.end()) return it->second;
            EV v = fresh(REAL);
            ref.addClause({-c, equal(v, x)});
            ref.addClause({c, equal(v, y)});
            app_memo[key] = v;
            return v;
        }
        case LE: return B(cmp(t, env, false, false));
        case LT: return B(cmp(t, env, false, true));
        case GE: return B(cmp(t, env, true, false));
        case GT: return B(cmp(t, env, true, true));
        case ADD: { LinExp e; for (auto& k : t->kids) e.add(tr(k, env).e, 1); return R(e); }
        case SUB:
        {
            LinExp e = tr(t->kids[0], env).e;
            for (size_t i = 1; i < t->kids.size(); ++i) e.add(tr(t->kids[i], env).e, -1);
            return R(e);
        }
        case NEG: { LinExp e; e.add(tr(t->kids[0], env).e, -1); return R(e); }
        case MUL:
        {
            LinExp a = tr(t->kids[0], env).e, b = tr(t->kids[1], env).e;
            if (!a.c.empty()) std::swap(a, b);
            if (!a.c.empty()) throw Unknown("non-linear");
            LinExp e;
            e.add(b, a.k);
            if (a.k == 0) e = LinExp{};
            return R(e);
        }
        case DIV:
        {
            LinExp a = tr(t->kids[0], env).e, b = tr(t->kids[1], env).e;
            if (!b.c.empty() || b.k == 0) throw Unknown("division");
            LinExp e;
            e.add(a, 1 / b.k);
            return R(e);
        }
        }
        throw Unknown("op");
    }
};

} // namespace sim
