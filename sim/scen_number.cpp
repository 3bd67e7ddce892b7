// C18: many clients create, copy, move, change and destroy rational numbers that share one pool of
// long numbers; a model of exact numbers is kept beside them. The list of operations is the
// schedule: it is drawn once (several client programs, interleaved by the seeded scheduler) and is
// the trace that is minimised and replayed.
#include "alloc.hpp"
#include "scen.hpp"
#include "lra/Rational.h"
#include <algorithm>
#include <climits>
#include <gmpxx.h>
#include <unordered_map>

namespace sim {
namespace {

using yaga::Rational;
using Q = mpq_class;

constexpr int slots = 14, lists = 3;

// ------------------------------------------------------------------ values worth reaching

mpz_class p2(int k) { mpz_class v; mpz_ui_pow_ui(v.get_mpz_t(), 2, k); return v; }

mpz_class edge_int(Rng& r)
{
    static int const bits[] = {0, 1, 2, 8, 15, 16, 16, 30, 31, 31, 31, 31, 32, 32, 32, 33, 46, 62, 63, 63, 64, 64, 65, 95, 128, 200};
    mpz_class v;
    switch (r.below(8))
    {
    case 0: v = r.range(-12, 12); break;
    case 1: v = static_cast<int>(r.next()); break;
    case 2: v = static_cast<unsigned>(r.next()); break;
    case 3: { v = 1; int k = 1 + r.below(14); static int const p[] = {2, 2, 2, 3, 3, 5, 7, 11, 13, 17, 46337, 65521, 65537}; while (k--) v *= p[r.below(13)]; break; }
    case 4: v = r.below(1000); break;
    default: v = p2(bits[r.below(sizeof bits / sizeof *bits)]) + r.range(-2, 2);
    }
    return r.chance(1, 2) ? v : mpz_class(-v);
}

Q edge(Rng& r)
{
    Q q(edge_int(r));
    if (r.chance(1, 2))
    {
        mpz_class d = edge_int(r);
        if (d == 0) d = 1;
        q = Q(q.get_num(), d);
        q.canonicalize();
    }
    return q;
}

// ------------------------------------------------------------------ drawing the operations

// what an operation needs; see the interpreter below
struct Draw {
    Rng r;
    std::string out;
    explicit Draw(uint64_t s) : r(s) {}
    int lo = 0, hi = slots;
    int slot() { return r.chance(5, 6) ? r.range(lo, hi - 1) : r.range(0, slots - 1); }
    void op(std::string const& name, std::vector<int> const& a = {}, std::string const& tail = "")
    {
        out += name;
        for (int v : a) out += " " + std::to_string(v);
        if (!tail.empty()) out += " " + tail;
        out += "\n";
    }
    std::string q(Q const& v) { return v.get_str(); }
    void make() { op("new", {slot(), static_cast<int>(r.below(8))}, q(edge(r))); }
    void step()
    {
        static char const* const bin[] = {"add", "sub", "mul", "div"};
        switch (r.below(30))
        {
        case 0: case 1: case 2: make(); break;
        case 3: case 4: case 5: op(std::string(bin[r.below(4)]), {slot(), slot(), slot()}); break;
        case 6: case 7: case 8: case 9: op(std::string(bin[r.below(4)]) + "=", {slot(), slot()}); break;
        case 10: case 11: case 12: case 13:
            op("steer", {slot(), slot(), static_cast<int>(r.below(8)), static_cast<int>(r.below(8))}, q(edge(r))); break;
        case 14: { int s = slot(); op(std::string(bin[r.below(4)]) + "=", {s, s}); break; }
        case 15: op("copy", {slot(), slot()}); break;
        case 16: op("assign", {slot(), r.chance(1, 8) ? lo : slot()}); break;
        case 17: op(r.chance(1, 2) ? "move" : "moveassign", {slot(), slot()}); break;
        case 18: op(r.chance(1, 4) ? "reset" : "drop", {slot()}); break;
        case 19: op(r.chance(1, 2) ? "neg" : "negate", {slot(), slot()}); break;
        case 20: op("inv", {slot(), slot()}); break;
        case 21: op(r.chance(1, 2) ? "ceil" : "floor", {slot(), slot()}); break;
        case 22: op(r.chance(1, 2) ? "num" : "den", {slot(), slot()}); break;
        case 23:
        {
            static char const* const i[] = {"mod", "gcd", "lcm", "fdiv", "round", "divexact", "abs"};
            op(i[r.below(7)], {slot(), slot(), slot()});
            break;
        }
        case 24: case 25: op("compare", {slot(), slot()}); break;
        case 26: op("probe", {slot(), static_cast<int>(r.below(6))}); break;
        case 27: op("swap", {slot(), slot()}); break;
        default:
        {
            static char const* const v[] = {"push", "push", "push", "pop", "sort", "reverse", "erase", "insert", "copylist", "swaplist", "clear", "dot", "multiplicand", "get", "pushmove", "count"};
            op(v[r.below(16)], {static_cast<int>(r.below(lists)), slot(), static_cast<int>(r.below(1000))});
        }
        }
        if (r.chance(1, 60)) op("oom", {1 + static_cast<int>(r.below(4)), 1 + static_cast<int>(r.below(3))});
        if (r.chance(1, 80)) op("checkall");
    }
    // habits of clients
    void habit()
    {
        int s = slot(), t = slot(), n = 2 + r.below(8);
        switch (r.below(7))
        {
        case 0: // grow past the word limits and come back
            make();
            op("new", {t, static_cast<int>(r.below(8))}, q(edge(r)));
            for (int i = 0; i < n; ++i) op("mul=", {s, t});
            for (int i = 0; i < n; ++i) op("div=", {s, t});
            break;
        case 1:
            for (int i = 0; i < n; ++i) op("add=", {s, t});
            for (int i = 0; i < n; ++i) op("sub=", {s, t});
            break;
        case 2: // many temporaries
            for (int i = 0; i < n; ++i) { op("new", {s, 3}, q(edge(r))); op("copy", {t, s}); op("drop", {s}); }
            break;
        case 3:
            for (int i = 0; i < n; ++i) { op("new", {s, static_cast<int>(r.below(8))}, q(edge(r))); op("push", {static_cast<int>(r.below(lists)), s, 0}); }
            op("sort", {static_cast<int>(r.below(lists)), s, 0});
            break;
        case 4: // harmonic-like sums: denominators grow
            op("new", {s, 0}, "0");
            for (int i = 0; i < n; ++i) { op("new", {t, 0}, q(Q(1 + r.below(3), 1 + i + r.below(70000)))); op(r.chance(1, 2) ? "add=" : "sub=", {s, t}); }
            break;
        case 5: // approach a limit in steps
            op("new", {s, static_cast<int>(r.below(8))}, q(Q(mpz_class(p2(31) - r.range(0, 3)), 1 + r.below(3))));
            op("new", {t, 0}, q(Q(r.range(1, 3), 1 + r.below(3))));
            for (int i = 0; i < n; ++i) { op(r.chance(2, 3) ? "add=" : "sub=", {s, t}); if (r.chance(1, 3)) op("neg", {s, s}); }
            break;
        default:
            for (int i = 0; i < n; ++i) { op("copy", {slot(), s}); op("moveassign", {slot(), slot()}); }
        }
    }
};

// ------------------------------------------------------------------ reading printed numbers

bool read_printed(std::string const& t, size_t& i, Q& v)
{
    auto ws = [&] { while (i < t.size() && isspace((unsigned char)t[i])) ++i; };
    ws();
    if (i >= t.size()) return false;
    if (t[i] == '(')
    {
        ++i;
        ws();
        if (i >= t.size() || (t[i] != '-' && t[i] != '/')) return false;
        char k = t[i++];
        Q a, b;
        if (!read_printed(t, i, a)) return false;
        if (k == '-') v = -a;
        else
        {
            if (!read_printed(t, i, b) || b == 0) return false;
            v = a / b;
        }
        ws();
        return i < t.size() && t[i++] == ')';
    }
    size_t b = i;
    while (i < t.size() && isdigit((unsigned char)t[i])) ++i;
    if (b == i) return false;
    v = Q(mpz_class(t.substr(b, i - b)));
    if (i + 1 < t.size() && t[i] == '.')
    {
        ++i;
        size_t f = i;
        while (i < t.size() && isdigit((unsigned char)t[i])) ++i;
        if (f == i) return false;
        mpz_class den;
        mpz_ui_pow_ui(den.get_mpz_t(), 10, i - f);
        Q frac(mpz_class(t.substr(f, i - f)), den);
        frac.canonicalize();
        v += frac;
    }
    return true;
}

// ------------------------------------------------------------------ the interpreter

// no allocation of the harness's own checks fails
struct Calm {
    bool was = alloc.armed;
    Calm() { alloc.armed = false; }
    ~Calm() { alloc.armed = was; }
};

struct World {
    Result& r;
    std::optional<Rational> x[slots];
    std::optional<Q> m[slots];
    std::vector<Rational> xs[lists];
    std::vector<Q> ms[lists];
    std::unordered_map<Rational, int> xm;
    std::map<Q, int> mm;
    Rng aux{7};
    std::string where;

    explicit World(Result& res) : r(res) {}

    void bad(std::string const& cls, std::string const& d) { r.fail(cls, where + ": " + d); }

    // does a hold q? as: look at only what does not change the representation
    void same(Rational const& a, Q const& q, std::string const& what, bool deep = false)
    {
        Calm calm;
        ++r.st["values_checked"];
        std::string got = a.get_str(), want = q.get_str();
        if (got != want) { bad("wrong-value", what + " is " + got + ", not " + want); return; }
        int s = a.sign();
        if ((s > 0) - (s < 0) != sgn(q)) { bad("wrong-sign", what + " = " + want + " has sign " + std::to_string(s)); return; }
        if (!deep) return;
        bool is_int = q.get_den() == 1;
        if (a.isInteger() != is_int) bad("wrong-value", what + " = " + want + ": isInteger is wrong");
        if (a.isZero() != (q == 0)) bad("wrong-value", what + " = " + want + ": isZero is wrong");
        if (a.isOne() != (q == 1)) bad("wrong-value", what + " = " + want + ": isOne is wrong");
        std::ostringstream o;
        o << a;
        Q v;
        size_t i = 0;
        if (!read_printed(o.str(), i, v) || i != o.str().size() || v != q) bad("wrong-print", what + " = " + want + " is printed as " + o.str());
    }

    // equal numbers built along another path: equal, same hash, ordered equally
    void twin(Rational const& a, Q const& q, int how)
    {
        Calm calm;
        Rational b = build(q, how);
        if (!(a == b) || a != b || a < b || a > b || !(a <= b) || !(a >= b) || a.compare(b) != 0)
            bad("wrong-comparison", q.get_str() + " differs from " + q.get_str() + " made in another way");
        if (std::hash<Rational>{}(a) != std::hash<Rational>{}(b))
            bad("wrong-hash", "two representations of " + q.get_str() + " have different hash values");
    }

    bool fits_word(mpz_class const& z) { return z >= INT_MIN && z <= INT_MAX; }
    bool fits_uword(mpz_class const& z) { return z >= 0 && z <= UINT_MAX; }
    int word(mpz_class const& z) { return static_cast<int>(z.get_si()); }

    Rational build(Q const& q, int how)
    {
        mpz_class const& n = q.get_num();
        mpz_class const& d = q.get_den();
        switch (how)
        {
        case 1: if (d == 1 && fits_word(n)) return Rational(word(n)); break;
        case 2: if (d == 1 && fits_uword(n)) return Rational(static_cast<uint32_t>(n.get_ui())); break;
        case 3: if (fits_word(n) && fits_uword(d)) return Rational(word(n), static_cast<uint32_t>(d.get_ui())); break;
        case 4:
            if constexpr (requires(mpz_t z) { Rational(z); })
                if (d == 1) { mpz_class z = n; return Rational(z.get_mpz_t()); }
            break;
        case 5: // not in lowest terms
            for (int k : {6, 35, 2, 3})
                if (fits_word(n * k) && fits_uword(d * k)) return Rational(word(n * k), static_cast<uint32_t>(mpz_class(d * k).get_ui()));
            break;
        case 6: { std::string s = mpz_class(n * 6).get_str() + "/" + mpz_class(d * 6).get_str(); return Rational(s.c_str()); }
        case 7: // difference of two long numbers
        {
            Q big(p2(70));
            std::string a = Q(q + big).get_str();
            return Rational(a.c_str()) - Rational(big.get_str().c_str());
        }
        }
        std::string s = q.get_str();
        return Rational(s.c_str());
    }

    bool both(int a, int b) { return x[a] && x[b]; }
    static size_t size(Q const& q) { return mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2); }
    bool small(int a) { return size(*m[a]) < 700; }

    void put(int d, Rational&& v, Q const& q) // the result of an operation goes to slot d
    {
        if (x[d] && (aux.next() & 1)) *x[d] = std::move(v);
        else if (x[d] && (aux.next() & 1)) *x[d] = v;
        else { x[d].reset(); x[d].emplace(std::move(v)); }
        m[d] = q;
        same(*x[d], q, "result");
    }

    void check_all()
    {
        for (int i = 0; i < slots; ++i)
            if (x[i]) same(*x[i], *m[i], "number " + std::to_string(i), true);
        for (int k = 0; k < lists; ++k)
        {
            if (xs[k].size() != ms[k].size()) { bad("harness", "list sizes differ"); return; }
            for (size_t i = 0; i < xs[k].size(); ++i) same(xs[k][i], ms[k][i], "list element");
        }
    }

    void sync(int d) { if (!x[d]) m[d].reset(); }

    void exec(std::string const& op, std::vector<int> const& a, std::string const& tail)
    {
        auto S = [&](size_t i) { return static_cast<unsigned>(i < a.size() ? a[i] : 0) % slots; };
        auto A = [&](size_t i) { return i < a.size() ? a[i] : 0; };
        auto arith = [](char c, Q const& p, Q const& q) { return c == 'a' ? Q(p + q) : c == 's' ? Q(p - q) : c == 'm' ? Q(p * q) : Q(p / q); };
        if (op == "new")
        {
            int d = S(0);
            Q q(tail.empty() ? "0" : tail);
            q.canonicalize();
            put(d, build(q, A(1)), q);
        }
        else if (op == "add" || op == "sub" || op == "mul" || op == "div")
        {
            int d = S(0), p = S(1), q = S(2);
            if (!both(p, q) || !small(p) || !small(q) || (op[0] == 'd' && *m[q] == 0)) return;
            Rational const& u = *x[p];
            Rational const& v = *x[q];
            Q w = arith(op[0], *m[p], *m[q]);
            put(d, op[0] == 'a' ? u + v : op[0] == 's' ? u - v : op[0] == 'm' ? u * v : u / v, w);
        }
        else if (op == "add=" || op == "sub=" || op == "mul=" || op == "div=")
        {
            int p = S(0), q = S(1);
            if (!both(p, q) || !small(p) || !small(q) || (op[0] == 'd' && *m[q] == 0)) return;
            Q w = arith(op[0], *m[p], *m[q]);
            switch (op[0])
            {
            case 'a': *x[p] += *x[q]; break;
            case 's': *x[p] -= *x[q]; break;
            case 'm': *x[p] *= *x[q]; break;
            default: *x[p] /= *x[q];
            }
            m[p] = w;
            same(*x[p], w, "result");
        }
        else if (op == "steer") // find t with s op t = target, and carry it out
        {
            int s = S(0), t = S(1);
            if (!x[s] || !small(s)) return;
            Q goal(tail.empty() ? "0" : tail);
            goal.canonicalize();
            int k = A(2) % 4;
            if ((k == 2 && *m[s] == 0) || (k == 3 && (goal == 0 || *m[s] == 0))) return;
            Q arg = k == 0 ? Q(goal - *m[s]) : k == 1 ? Q(*m[s] - goal) : k == 2 ? Q(goal / *m[s]) : Q(*m[s] / goal);
            bool in_place = A(2) >= 4;
            Rational v = build(arg, A(3));
            same(v, arg, "operand");
            static char const names[] = "asmd";
            Q w = arith(names[k], *m[s], arg);
            if (in_place)
            {
                switch (k)
                {
                case 0: *x[s] += v; break;
                case 1: *x[s] -= v; break;
                case 2: *x[s] *= v; break;
                default: *x[s] /= v;
                }
                m[s] = w;
                same(*x[s], w, "result");
            }
            else
            {
                Rational z = k == 0 ? *x[s] + v : k == 1 ? *x[s] - v : k == 2 ? *x[s] * v : *x[s] / v;
                put(t, std::move(z), w);
            }
        }
        else if (op == "copy")
        {
            int d = S(0), s = S(1);
            if (!x[s] || d == s) return;
            m[d].reset(); x[d].reset();
            x[d].emplace(*x[s]);
            m[d] = m[s];
            same(*x[d], *m[d], "copy");
        }
        else if (op == "assign")
        {
            int d = S(0), s = S(1);
            if (!x[s] || !x[d]) return;
            Q v = *m[s];
            *x[d] = *x[s];
            m[d] = v;
            same(*x[d], v, "assigned number");
            same(*x[s], v, "source of the assignment");
        }
        else if (op == "move" || op == "moveassign")
        {
            int d = S(0), s = S(1);
            if (!x[s] || d == s) return;
            Q v = *m[s];
            if (op == "move" || !x[d]) { x[d].reset(); x[d].emplace(std::move(*x[s])); }
            else *x[d] = std::move(*x[s]);
            m[d] = v;
            if (A(1) % 2) { x[s].reset(); m[s].reset(); }      // a moved-from number may be destroyed
            else { *x[s] = build(Q(v + 1), 0); m[s] = v + 1; } // or assigned to
            same(*x[d], v, "moved number");
        }
        else if (op == "reset")
        {
            int d = S(0);
            if (!x[d]) return;
            if constexpr (requires(Rational& z) { z.reset(); })
            {
                x[d]->reset();
                m[d] = 0;
                same(*x[d], *m[d], "reset number", true);
            }
        }
        else if (op == "drop") { int d = S(0); x[d].reset(); m[d].reset(); }
        else if (op == "neg") { int d = S(0), s = S(1); if (x[s]) { Q w = -*m[s]; put(d, -*x[s], w); } }
        else if (op == "negate")
        {
            int d = S(0);
            if (!x[d]) return;
            if constexpr (requires(Rational& z) { z.negate(); })
            {
                x[d]->negate();
                m[d] = -*m[d];
                same(*x[d], *m[d], "negated number", true);
            }
        }
        else if (op == "inv")
        {
            int d = S(0), s = S(1);
            if (!x[s] || *m[s] == 0) return;
            Q w = 1 / *m[s];
            put(d, (aux.next() & 1) ? x[s]->inv() : x[s]->inverse(), w);
        }
        else if (op == "ceil" || op == "floor")
        {
            int d = S(0), s = S(1);
            if (!x[s]) return;
            mpz_class z;
            if (op[0] == 'c') mpz_cdiv_q(z.get_mpz_t(), m[s]->get_num_mpz_t(), m[s]->get_den_mpz_t());
            else mpz_fdiv_q(z.get_mpz_t(), m[s]->get_num_mpz_t(), m[s]->get_den_mpz_t());
            put(d, op[0] == 'c' ? x[s]->ceil() : x[s]->floor(), Q(z));
        }
        else if (op == "num") { int d = S(0), s = S(1); if (x[s]) { Q w(m[s]->get_num()); put(d, x[s]->numerator(), w); } }
        else if (op == "den") { int d = S(0), s = S(1); if (x[s]) { Q w(m[s]->get_den()); put(d, x[s]->denominator(), w); } }
        else if (op == "mod" || op == "gcd" || op == "lcm" || op == "fdiv" || op == "divexact") integers(op, S(0), S(1), S(2), *this);
        else if (op == "round" || op == "abs") rounding(op, S(0), S(1), *this);
        else if (op == "compare")
        {
            int s = S(0), t = S(1);
            if (!both(s, t)) return;
            int want = cmp(*m[s], *m[t]);
            want = (want > 0) - (want < 0);
            int got = x[s]->compare(*x[t]);
            got = (got > 0) - (got < 0);
            Rational const &u = *x[s], &v = *x[t];
            if (got != want || (u < v) != (want < 0) || (u > v) != (want > 0) || (u <= v) != (want <= 0) || (u >= v) != (want >= 0) ||
                (u == v) != (want == 0) || (u != v) != (want != 0))
                bad("wrong-comparison", m[s]->get_str() + " compared with " + m[t]->get_str());
        }
        else if (op == "probe")
        {
            int s = S(0);
            if (!x[s]) return;
            if (A(1) == 0) twin(*x[s], *m[s], aux.below(8));
            else if (A(1) == 1) real(*x[s], *m[s], *this);
            else same(*x[s], *m[s], "number", true);
            if (A(1) == 2) twin(*x[s], *m[s], 7);
        }
        else if (op == "swap")
        {
            int s = S(0), t = S(1);
            if (!both(s, t)) return;
            std::swap(*x[s], *x[t]);
            std::swap(*m[s], *m[t]);
            same(*x[s], *m[s], "swapped number");
            same(*x[t], *m[t], "swapped number");
        }
        else if (op == "checkall") check_all();
        else list_op(op, static_cast<unsigned>(A(0)) % lists, S(1), static_cast<unsigned>(A(2)));
        for (int i = 0; i < slots; ++i) sync(i);
    }

    template <class W> static void integers(std::string const& op, int d, int p, int q, W& w)
    {
        if (!w.both(p, q) || w.m[p]->get_den() != 1 || w.m[q]->get_den() != 1) return;
        mpz_class a = w.m[p]->get_num(), b = w.m[q]->get_num(), z;
        using R = std::remove_cvref_t<decltype(*w.x[p])>;
        R& u = *w.x[p];
        R& v = *w.x[q];
        if (op == "mod")
        {
            if (b == 0) return;
            mpz_fdiv_r(z.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
            if constexpr (requires { u % v; }) w.put(d, u % v, Q(z));
        }
        else if (op == "gcd")
        {
            mpz_gcd(z.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
            if constexpr (requires { gcd(u, v); }) w.put(d, gcd(u, v), Q(z));
        }
        else if (op == "lcm")
        {
            mpz_lcm(z.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
            if constexpr (requires { lcm(u, v); }) w.put(d, lcm(u, v), Q(z));
        }
        else if (op == "fdiv")
        {
            if (b == 0) return;
            mpz_fdiv_q(z.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
            if constexpr (requires { fastrat_fdiv_q(u, v); }) w.put(d, fastrat_fdiv_q(u, v), Q(z));
        }
        else
        {
            if (b == 0 || !mpz_divisible_p(a.get_mpz_t(), b.get_mpz_t())) return;
            mpz_divexact(z.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
            if constexpr (requires { divexact(u, v); }) w.put(d, divexact(u, v), Q(z));
        }
    }

    template <class W> static void rounding(std::string const& op, int d, int s, W& w)
    {
        if (!w.x[s]) return;
        using R = std::remove_cvref_t<decltype(*w.x[s])>;
        R& u = *w.x[s];
        if (op == "abs")
        {
            Q z = abs(*w.m[s]);
            if constexpr (requires { abs(u); }) w.put(d, abs(u), z);
        }
        else
        {
            Q h = *w.m[s] + Q(1, 2);
            mpz_class z;
            mpz_fdiv_q(z.get_mpz_t(), h.get_num_mpz_t(), h.get_den_mpz_t());
            if constexpr (requires { fastrat_round_to_int(u); }) w.put(d, fastrat_round_to_int(u), Q(z));
        }
    }

    template <class R, class W> static void real(R const& a, Q const& q, W& w)
    {
        if constexpr (requires { a.get_d(); })
        {
            if (w.size(q) > 900) return;
            double f = a.get_d();
            Q e = abs(Q(f) - q), tol = abs(q) / Q(p2(50));
            if (e > tol) w.bad("wrong-value", q.get_str() + " is converted to " + std::to_string(f));
        }
    }

    void list_op(std::string const& op, int k, int s, unsigned n)
    {
        auto &v = xs[k];
        auto &w = ms[k];
        if (op == "push" || op == "pushmove")
        {
            if (!x[s] || v.size() > 60) return;
            Q q = *m[s];
            try
            {
                if (op == "push") v.push_back(*x[s]);
                else { Rational t = *x[s]; v.push_back(std::move(t)); }
            }
            catch (std::bad_alloc const&) { if (v.size() != w.size()) bad("lost-number", "a failed push_back changed the list"); throw; }
            w.push_back(q);
        }
        else if (op == "pop") { if (!v.empty()) { v.pop_back(); w.pop_back(); } }
        else if (op == "sort")
        {
            std::sort(v.begin(), v.end());
            std::sort(w.begin(), w.end());
            if (n % 2)
            {
                v.erase(std::unique(v.begin(), v.end()), v.end());
                w.erase(std::unique(w.begin(), w.end()), w.end());
            }
            if (v.size() != w.size()) { bad("wrong-comparison", "sorting and removing duplicates leaves " + std::to_string(v.size()) + " of " + std::to_string(w.size()) + " numbers"); return; }
            for (size_t i = 0; i < v.size(); ++i) same(v[i], w[i], "sorted element");
        }
        else if (op == "reverse") { std::reverse(v.begin(), v.end()); std::reverse(w.begin(), w.end()); }
        else if (op == "erase") { if (!v.empty()) { n %= v.size(); v.erase(v.begin() + n); w.erase(w.begin() + n); } }
        else if (op == "insert") { if (x[s] && v.size() < 60) { n %= v.size() + 1; Q q = *m[s]; v.insert(v.begin() + n, *x[s]); w.insert(w.begin() + n, q); } }
        else if (op == "copylist") { int t = n % lists; if (t != k) { xs[t] = v; ms[t] = w; for (size_t i = 0; i < xs[t].size(); ++i) same(xs[t][i], ms[t][i], "copied element"); } }
        else if (op == "swaplist") { int t = n % lists; v.swap(xs[t]); w.swap(ms[t]); }
        else if (op == "clear") { v.clear(); w.clear(); if (n % 2) { v.shrink_to_fit(); } }
        else if (op == "dot")
        {
            int t = n % lists;
            Rational sum = 0;
            Q want = 0;
            for (size_t i = 0; i < v.size() && i < xs[t].size(); ++i)
            {
                if (size(w[i]) + size(ms[t][i]) > 400 || size(want) > 1200) break;
                sum += v[i] * xs[t][i];
                want += w[i] * ms[t][i];
            }
            same(sum, want, "sum of products", true);
        }
        else if (op == "get") { if (!v.empty()) { n %= v.size(); Q q = w[n]; Rational y = v[n]; put(s, std::move(y), q); } }
        else if (op == "multiplicand") multiplicand(v, w, *this);
        else if (op == "count") // numbers as keys
        {
            if (!x[s]) return;
            if (xm.size() > 60) { xm.clear(); mm.clear(); }
            int i = ++xm[*x[s]], j = ++mm[*m[s]];
            if (i != j || xm.size() != mm.size()) bad("wrong-hash", m[s]->get_str() + " was counted " + std::to_string(i) + " instead of " + std::to_string(j) + " times");
        }
    }

    template <class V, class W> static void multiplicand(V const& v, std::vector<Q> const& q, W& w)
    {
        if constexpr (requires { get_multiplicand(v); })
        {
            size_t bits = 0;
            mpz_class z = 1;
            for (auto& x : q) { bits += w.size(x); mpz_lcm(z.get_mpz_t(), z.get_mpz_t(), x.get_den_mpz_t()); }
            if (bits > 1500) return;
            w.same(get_multiplicand(v), Q(z), "common multiple of the denominators", true);
        }
    }
};

} // namespace

Case make_number(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.scen = "numbers";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e));
    int clients = 1 + r.below(4);
    // the programs of the clients, each on its own part of the numbers
    std::vector<std::vector<std::string>> prog(clients);
    for (int i = 0; i < clients; ++i)
    {
        Draw d(r.next());
        d.lo = slots * i / clients;
        d.hi = slots * (i + 1) / clients;
        for (int k = 0; k < 3; ++k) d.make();
        int n = (thorough ? 40 : 20) + r.below(120 / clients);
        for (int k = 0; k < n; ++k)
            if (d.r.chance(1, 15)) d.habit();
            else d.step();
        std::istringstream in(d.out);
        std::string l;
        while (std::getline(in, l)) prog[i].push_back(l);
    }
    // the schedule
    std::string ops;
    std::vector<size_t> at(clients);
    int burst = 1 + r.below(6), cur = 0;
    for (;;)
    {
        std::vector<int> ready;
        for (int i = 0; i < clients; ++i)
            if (at[i] < prog[i].size()) ready.push_back(i);
        if (ready.empty()) break;
        if (at[cur] >= prog[cur].size() || r.chance(1, burst)) cur = r.pick(ready);
        ops += prog[cur][at[cur]++] + "\n";
    }
    c.text["ops"] = ops;
    c.cfg["layout"] = r.chance(1, 3) ? 1 + r.below(1000000) : 0;
    c.cfg["clients"] = clients;
    return c;
}

void exec_number(Case const& c, Result& r, Logs&)
{
    std::istringstream in(c.str("ops"));
    std::string line;
    Hash shape;
    uint64_t faults = 0, n = 0;
    {
        World w(r);
        if (c.get("layout")) { alloc.perturb = true; alloc.state = c.get("layout"); alloc.fill = 0xa5; }
        uint64_t from = 0, len = 0;
        while (std::getline(in, line) && r.cls.empty())
        {
            std::istringstream l(line);
            std::string op, tail, t;
            std::vector<int> a;
            l >> op;
            while (l >> t)
            {
                // the last word of new and steer is a number, all others are small integers
                bool last = l.peek() == EOF;
                if ((op == "new" && a.size() == 2) || (op == "steer" && a.size() == 4)) { tail = t; break; }
                a.push_back(atoi(t.c_str()));
                if (last) break;
            }
            ++n;
            ++r.steps;
            shape.add(op);
            for (int v : a) shape.add(v);
            w.where = "operation " + std::to_string(n) + " (" + line + ")";
            if (op == "oom") { from = a.empty() ? 1 : std::max(1, a[0]); len = a.size() > 1 ? std::max(1, a[1]) : 1; continue; }
            if (from) { alloc.count = 0; alloc.failed = 0; alloc.fail_from = from; alloc.fail_len = len; }
            try
            {
                // only allocations made by the numbers themselves fail: strings of the harness are
                // small, and an operation that fails anywhere leaves all other numbers alone
                alloc.armed = from != 0;
                w.exec(op, a, tail);
                alloc.armed = false;
            }
            catch (std::bad_alloc const&)
            {
                alloc.armed = false;
                ++faults;
                // the target may hold anything now; it can be destroyed, and the others are as before
                int d = a.empty() ? 0 : static_cast<unsigned>(a[0]) % slots;
                for (int k : {d, a.size() > 1 ? static_cast<int>(static_cast<unsigned>(a[1]) % slots) : d}) { w.x[k].reset(); w.m[k].reset(); }
                static std::set<std::string> const whole{"sort", "insert", "copylist", "erase", "reverse"};
                for (int k = 0; k < lists; ++k)
                    if (w.xs[k].size() != w.ms[k].size() || whole.count(op)) { w.xs[k].clear(); w.ms[k].clear(); }
                w.xm.clear(); w.mm.clear();
                w.where += " fails";
                w.check_all();
            }
            if (from && alloc.failed) from = 0;
        }
        w.where = "at the end";
        if (r.cls.empty()) w.check_all();
        // all clients end: every number goes back to the pool, and new numbers come from it
        for (auto& x : w.x) x.reset();
        for (auto& v : w.xs) v.clear();
        if (r.cls.empty())
        {
            Rng g(c.seed);
            std::vector<std::pair<Rational, Q>> fresh;
            for (int i = 0; i < 40; ++i)
            {
                Q q = edge(g);
                fresh.emplace_back(w.build(q, g.below(8)), q);
            }
            w.where = "numbers made from the pool after all were destroyed";
            for (auto& [a, q] : fresh) w.same(a, q, "number", true);
        }
        alloc.perturb = false;
    }
    r.st["operations"] += n;
    r.st["fault.allocation"] += faults;
    r.st["fault.moved_memory"] += c.get("layout") != 0;
    r.st["client_switches_possible"] += c.get("clients") > 1;
    r.hash = mix(shape.h, r.st["values_checked"]);
    r.shape = shape.h;
    r.nontrivial = n > 20;
    r.sample = c.str("ops").substr(0, 600);
}

} // namespace sim
