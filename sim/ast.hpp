// Workload language: scripts over Booleans, linear real arithmetic and uninterpreted functions.
// This is independent of the code under test: own terms, own printer, own reader, own evaluator.
#pragma once
#include "core.hpp"
#include <gmpxx.h>
#include <algorithm>
#include <unordered_map>

namespace sim {

enum Sort : uint8_t { BOOL, REAL };
enum Op : uint8_t {
    TRUE_, FALSE_, VAR, CONST, APP, AND, OR, NOT, IMPL, XOR, EQ, DISTINCT, ITE, LE, LT, GE, GT, ADD, SUB, NEG, MUL, DIV, LET
};
inline char const* op_names[] = {"true", "false", "", "", "", "and", "or", "not", "=>", "xor", "=", "distinct", "ite", "<=", "<",
    ">=", ">", "+", "-", "-", "*", "/", "let"};

struct Node;
using P = std::shared_ptr<Node const>;
struct Node {
    Op op;
    Sort sort;
    std::string name;               // VAR / APP
    std::string text;               // CONST: spelling
    mpq_class val;                  // CONST
    std::vector<P> kids;            // LET: bindings then body
    std::vector<std::string> names; // LET: bound names
};

inline P mk(Op op, Sort s, std::vector<P> kids = {})
{
    auto n = std::make_shared<Node>();
    n->op = op;
    n->sort = s;
    n->kids = std::move(kids);
    return n;
}
inline P mk_true() { return mk(TRUE_, BOOL); }
inline P mk_false() { return mk(FALSE_, BOOL); }
inline P mk_var(std::string const& name, Sort s)
{
    auto n = std::make_shared<Node>();
    n->op = VAR;
    n->sort = s;
    n->name = name;
    return n;
}
inline P mk_app(std::string const& name, Sort s, std::vector<P> kids)
{
    auto n = std::make_shared<Node>();
    n->op = APP;
    n->sort = s;
    n->name = name;
    n->kids = std::move(kids);
    return n;
}
// non-negative literal written as `text` with value v
inline P mk_lit(std::string const& text, mpq_class const& v)
{
    auto n = std::make_shared<Node>();
    n->op = CONST;
    n->sort = REAL;
    n->text = text;
    n->val = v;
    return n;
}
inline P mk_num(mpq_class const& v)
{
    mpq_class a = abs(v);
    P r;
    if (a.get_den() == 1)
        r = mk_lit(a.get_num().get_str(), a);
    else
        r = mk(DIV, REAL, {mk_lit(a.get_num().get_str(), a.get_num()), mk_lit(a.get_den().get_str(), a.get_den())});
    if (v < 0)
        r = mk(NEG, REAL, {r});
    return r;
}

inline bool needs_quote(std::string const& s)
{
    if (s.empty())
        return true;
    for (char ch : s)
        if (!(isalnum((unsigned char)ch) || strchr("~!@$%^&*_-+=<>.?/", ch)))
            return true;
    return isdigit((unsigned char)s[0]);
}
inline std::string sym(std::string const& s) { return needs_quote(s) ? "|" + s + "|" : s; }

inline void print(std::ostream& o, P const& t)
{
    switch (t->op)
    {
    case TRUE_: o << "true"; return;
    case FALSE_: o << "false"; return;
    case VAR: o << sym(t->name); return;
    case CONST: o << t->text; return;
    case APP:
        if (t->kids.empty())
        {
            o << sym(t->name);
            return;
        }
        o << "(" << sym(t->name);
        for (auto& k : t->kids) { o << " "; print(o, k); }
        o << ")";
        return;
    case LET:
        o << "(let (";
        for (size_t i = 0; i < t->names.size(); ++i)
        {
            o << (i ? " (" : "(") << sym(t->names[i]) << " ";
            print(o, t->kids[i]);
            o << ")";
        }
        o << ") ";
        print(o, t->kids.back());
        o << ")";
        return;
    default:
        o << "(" << op_names[t->op];
        for (auto& k : t->kids) { o << " "; print(o, k); }
        o << ")";
    }
}
inline std::string str(P const& t)
{
    std::ostringstream o;
    print(o, t);
    return o.str();
}
inline size_t term_size(P const& t)
{
    size_t n = 1;
    for (auto& k : t->kids) n += term_size(k);
    return n;
}

inline char const* sort_name(Sort s) { return s == BOOL ? "Bool" : "Real"; }

struct Fun {
    std::string name;
    std::vector<Sort> args;
    Sort ret;
    // defined functions only
    bool defined = false;
    std::vector<std::string> params;
    P body;
};

enum CmdKind : uint8_t { C_LOGIC, C_DECL, C_DEFINE, C_ASSERT, C_CHECK, C_MODEL, C_RAW, C_EXIT };
struct Cmd {
    CmdKind kind;
    Fun fun;          // C_DECL, C_DEFINE
    P term;           // C_ASSERT
    std::string text; // C_LOGIC: name; C_RAW: verbatim text; C_DECL: "const" for declare-const
};

inline std::string print_cmd(Cmd const& c)
{
    std::ostringstream o;
    switch (c.kind)
    {
    case C_LOGIC: o << "(set-logic " << c.text << ")"; break;
    case C_DECL:
        if (c.fun.args.empty() && c.text == "const")
        {
            o << "(declare-const " << sym(c.fun.name) << " " << sort_name(c.fun.ret) << ")";
            break;
        }
        o << "(declare-fun " << sym(c.fun.name) << " (";
        for (size_t i = 0; i < c.fun.args.size(); ++i)
            o << (i ? " " : "") << sort_name(c.fun.args[i]);
        o << ") " << sort_name(c.fun.ret) << ")";
        break;
    case C_DEFINE:
        o << "(define-fun " << sym(c.fun.name) << " (";
        for (size_t i = 0; i < c.fun.args.size(); ++i)
            o << (i ? " (" : "(") << sym(c.fun.params[i]) << " " << sort_name(c.fun.args[i]) << ")";
        o << ") " << sort_name(c.fun.ret) << " ";
        print(o, c.fun.body);
        o << ")";
        break;
    case C_ASSERT:
        o << "(assert ";
        print(o, c.term);
        o << ")";
        break;
    case C_CHECK: o << "(check-sat)"; break;
    case C_MODEL: o << "(get-model)"; break;
    case C_RAW: o << c.text; break;
    case C_EXIT: o << "(exit)"; break;
    }
    return o.str();
}

struct Script {
    std::vector<Cmd> cmds;
    std::string text() const
    {
        std::string r;
        for (auto& c : cmds) r += print_cmd(c) + "\n";
        return r;
    }
};

// ---------------------------------------------------------------- s-expressions

struct SExp {
    bool atom = true;
    std::string s;
    std::vector<SExp> kids;
};

struct SReader {
    std::string const& t;
    size_t i = 0;
    explicit SReader(std::string const& text) : t(text) {}
    void ws()
    {
        for (;;)
        {
            while (i < t.size() && isspace((unsigned char)t[i])) ++i;
            if (i < t.size() && t[i] == ';')
                while (i < t.size() && t[i] != '\n') ++i;
            else
                return;
        }
    }
    bool done() { ws(); return i >= t.size(); }
    SExp read()
    {
        ws();
        if (i >= t.size()) throw std::runtime_error("unexpected end of s-expression");
        SExp r;
        if (t[i] == '(')
        {
            r.atom = false;
            ++i;
            for (;;)
            {
                ws();
                if (i >= t.size()) throw std::runtime_error("unbalanced s-expression");
                if (t[i] == ')') { ++i; return r; }
                r.kids.push_back(read());
            }
        }
        if (t[i] == ')') throw std::runtime_error("unexpected )");
        if (t[i] == '|')
        {
            size_t j = t.find('|', i + 1);
            if (j == std::string::npos) throw std::runtime_error("unterminated quoted symbol");
            r.s = t.substr(i, j - i + 1);
            i = j + 1;
            return r;
        }
        if (t[i] == '"')
        {
            size_t j = t.find('"', i + 1);
            if (j == std::string::npos) throw std::runtime_error("unterminated string");
            r.s = t.substr(i, j - i + 1);
            i = j + 1;
            return r;
        }
        while (i < t.size() && !isspace((unsigned char)t[i]) && !strchr("();|\"", t[i])) r.s += t[i++];
        return r;
    }
};

inline std::string unquote(std::string const& s)
{
    return s.size() >= 2 && s.front() == '|' && s.back() == '|' ? s.substr(1, s.size() - 2) : s;
}

inline mpq_class parse_number(std::string const& s)
{
    auto dot = s.find('.');
    if (dot == std::string::npos)
        return mpq_class(mpz_class(s, 10));
    std::string frac = s.substr(dot + 1);
    mpz_class den = 1;
    for (size_t i = 0; i < frac.size(); ++i) den *= 10;
    mpq_class q(mpz_class(s.substr(0, dot) + frac, 10), den);
    q.canonicalize();
    return q;
}

struct Symbols {
    std::map<std::string, Fun> funs;
    std::vector<std::pair<std::string, Sort>> locals;
};

inline P to_term(SExp const& e, Symbols& sy)
{
    if (e.atom)
    {
        if (e.s == "true") return mk_true();
        if (e.s == "false") return mk_false();
        if (!e.s.empty() && isdigit((unsigned char)e.s[0])) return mk_lit(e.s, parse_number(e.s));
        std::string n = unquote(e.s);
        for (size_t i = sy.locals.size(); i-- > 0;)
            if (sy.locals[i].first == n) return mk_var(n, sy.locals[i].second);
        auto it = sy.funs.find(n);
        if (it == sy.funs.end()) throw std::runtime_error("unknown symbol " + n);
        if (it->second.defined) return mk_app(n, it->second.ret, {});
        return mk_var(n, it->second.ret);
    }
    if (e.kids.empty()) throw std::runtime_error("empty application");
    std::string h = e.kids[0].s;
    if (h == "let")
    {
        auto n = std::make_shared<Node>();
        n->op = LET;
        size_t mark = sy.locals.size();
        std::vector<std::pair<std::string, Sort>> add;
        for (auto& b : e.kids.at(1).kids)
        {
            P v = to_term(b.kids.at(1), sy);
            n->names.push_back(unquote(b.kids[0].s));
            n->kids.push_back(v);
            add.emplace_back(n->names.back(), v->sort);
        }
        for (auto& a : add) sy.locals.push_back(a);
        P body = to_term(e.kids.at(2), sy);
        sy.locals.resize(mark);
        n->kids.push_back(body);
        n->sort = body->sort;
        return n;
    }
    std::vector<P> k;
    for (size_t i = 1; i < e.kids.size(); ++i) k.push_back(to_term(e.kids[i], sy));
    static std::map<std::string, Op> ops = {{"and", AND}, {"or", OR}, {"not", NOT}, {"=>", IMPL}, {"xor", XOR}, {"=", EQ},
        {"distinct", DISTINCT}, {"ite", ITE}, {"<=", LE}, {"<", LT}, {">=", GE}, {">", GT}, {"+", ADD}, {"*", MUL}, {"/", DIV}};
    if (h == "-") return mk(k.size() == 1 ? NEG : SUB, REAL, k);
    auto it = ops.find(h);
    if (it != ops.end())
    {
        Sort s = BOOL;
        if (it->second == ITE) s = k.at(1)->sort;
        if (it->second == ADD || it->second == MUL || it->second == DIV) s = REAL;
        return mk(it->second, s, k);
    }
    auto f = sy.funs.find(unquote(h));
    if (f == sy.funs.end()) throw std::runtime_error("unknown function " + h);
    return mk_app(f->first, f->second.ret, k);
}

inline Sort to_sort(SExp const& e) { return e.s == "Bool" ? BOOL : REAL; }

// Read back a script printed by Script::text (plus verbatim commands it does not know).
inline Script parse_script(std::string const& text)
{
    Script s;
    Symbols sy;
    SReader r(text);
    while (!r.done())
    {
        r.ws();
        size_t b = r.i;
        Cmd c;
        if (text[b] != '(') // verbatim garbage: to the end of the line
        {
            size_t e = text.find('\n', b);
            c.kind = C_RAW;
            c.text = text.substr(b, e == std::string::npos ? std::string::npos : e - b);
            r.i = e == std::string::npos ? text.size() : e;
            s.cmds.push_back(c);
            continue;
        }
        SExp e = r.read();
        std::string h = e.kids.empty() ? "" : e.kids[0].s;
        if (h == "set-logic") { c.kind = C_LOGIC; c.text = e.kids.at(1).s; }
        else if (h == "declare-fun" || h == "declare-const")
        {
            c.kind = C_DECL;
            c.fun.name = unquote(e.kids.at(1).s);
            if (h == "declare-fun")
            {
                for (auto& k : e.kids.at(2).kids) c.fun.args.push_back(to_sort(k));
                c.fun.ret = to_sort(e.kids.at(3));
            }
            else
            {
                c.fun.ret = to_sort(e.kids.at(2));
                c.text = "const";
            }
            sy.funs[c.fun.name] = c.fun;
        }
        else if (h == "define-fun")
        {
            c.kind = C_DEFINE;
            c.fun.defined = true;
            c.fun.name = unquote(e.kids.at(1).s);
            for (auto& k : e.kids.at(2).kids)
            {
                c.fun.params.push_back(unquote(k.kids.at(0).s));
                c.fun.args.push_back(to_sort(k.kids.at(1)));
                sy.locals.emplace_back(c.fun.params.back(), c.fun.args.back());
            }
            c.fun.ret = to_sort(e.kids.at(3));
            c.fun.body = to_term(e.kids.at(4), sy);
            sy.locals.clear();
            sy.funs[c.fun.name] = c.fun;
        }
        else if (h == "assert")
        {
            try
            {
                Symbols copy = sy;
                c.kind = C_ASSERT;
                c.term = to_term(e.kids.at(1), copy);
            }
            catch (std::runtime_error&)
            {
                c.kind = C_RAW;
                c.text = text.substr(b, r.i - b);
            }
        }
        else if (h == "check-sat") c.kind = C_CHECK;
        else if (h == "get-model") c.kind = C_MODEL;
        else if (h == "exit") c.kind = C_EXIT;
        else { c.kind = C_RAW; c.text = text.substr(b, r.i - b); }
        s.cmds.push_back(c);
    }
    return s;
}

// ---------------------------------------------------------------- evaluation

struct Val {
    Sort sort = BOOL;
    bool b = false;
    mpq_class q;
    static Val B(bool v) { Val r; r.sort = BOOL; r.b = v; return r; }
    static Val Q(mpq_class v) { Val r; r.sort = REAL; r.q = std::move(v); return r; }
    bool operator==(Val const& o) const { return sort == o.sort && (sort == BOOL ? b == o.b : q == o.q); }
    bool operator<(Val const& o) const
    {
        if (sort != o.sort) return sort < o.sort;
        return sort == BOOL ? b < o.b : q < o.q;
    }
};

struct Unknown : std::runtime_error { using std::runtime_error::runtime_error; };

struct Evaluator {
    // interpretation of constants
    std::map<std::string, Val> vars;
    // interpretation of n-ary functions: given as definitions
    std::map<std::string, Fun> funs;
    std::vector<std::pair<std::string, Val>> locals;
    size_t base = 0; // first visible local (function bodies do not see the caller's locals)

    Val eval(P const& t)
    {
        switch (t->op)
        {
        case TRUE_: return Val::B(true);
        case FALSE_: return Val::B(false);
        case CONST: return Val::Q(t->val);
        case VAR:
        {
            for (size_t i = locals.size(); i-- > base;)
                if (locals[i].first == t->name) return locals[i].second;
            auto it = vars.find(t->name);
            if (it == vars.end()) throw Unknown("no value for " + t->name);
            return it->second;
        }
        case APP:
        {
            auto it = funs.find(t->name);
            if (it == funs.end()) throw Unknown("no interpretation for " + t->name);
            if (it->second.params.size() != t->kids.size()) throw Unknown("arity of " + t->name);
            std::vector<Val> a;
            for (auto& k : t->kids) a.push_back(eval(k));
            size_t old_base = base, mark = locals.size();
            for (size_t i = 0; i < a.size(); ++i) locals.emplace_back(it->second.params[i], a[i]);
            base = mark;
            Val v = eval(it->second.body);
            base = old_base;
            locals.resize(mark);
            return v;
        }
        case LET:
        {
            std::vector<Val> a;
            for (size_t i = 0; i < t->names.size(); ++i) a.push_back(eval(t->kids[i]));
            size_t mark = locals.size();
            for (size_t i = 0; i < a.size(); ++i) locals.emplace_back(t->names[i], a[i]);
            Val v = eval(t->kids.back());
            locals.resize(mark);
            return v;
        }
        case AND: { for (auto& k : t->kids) if (!eval(k).b) return Val::B(false); return Val::B(true); }
        case OR: { for (auto& k : t->kids) if (eval(k).b) return Val::B(true); return Val::B(false); }
        case NOT: return Val::B(!eval(t->kids[0]).b);
        case IMPL: return Val::B(!eval(t->kids[0]).b || eval(t->kids[1]).b);
        case XOR: return Val::B(eval(t->kids[0]).b != eval(t->kids[1]).b);
        case EQ: return Val::B(eval(t->kids[0]) == eval(t->kids[1]));
        case DISTINCT:
        {
            std::vector<Val> a;
            for (auto& k : t->kids) a.push_back(eval(k));
            for (size_t i = 0; i < a.size(); ++i)
                for (size_t j = i + 1; j < a.size(); ++j)
                    if (a[i] == a[j]) return Val::B(false);
            return Val::B(true);
        }
        case ITE: return eval(t->kids[0]).b ? eval(t->kids[1]) : eval(t->kids[2]);
        case LE: return Val::B(eval(t->kids[0]).q <= eval(t->kids[1]).q);
        case LT: return Val::B(eval(t->kids[0]).q < eval(t->kids[1]).q);
        case GE: return Val::B(eval(t->kids[0]).q >= eval(t->kids[1]).q);
        case GT: return Val::B(eval(t->kids[0]).q > eval(t->kids[1]).q);
        case ADD: { mpq_class s = 0; for (auto& k : t->kids) s += eval(k).q; return Val::Q(s); }
        case SUB: { mpq_class s = eval(t->kids[0]).q; for (size_t i = 1; i < t->kids.size(); ++i) s -= eval(t->kids[i]).q; return Val::Q(s); }
        case NEG: return Val::Q(-eval(t->kids[0]).q);
        case MUL: { mpq_class s = 1; for (auto& k : t->kids) s *= eval(k).q; return Val::Q(s); }
        case DIV: { mpq_class d = eval(t->kids[1]).q; return Val::Q(eval(t->kids[0]).q / d); }
        }
        throw Unknown("op");
    }
};

} // namespace sim
