// C22: scripts damaged on their way to the solver. What arrives is judged by a strict reader of its
// own that knows which commands are valid, which must be refused and what each check-sat then means.
#include "deliver.hpp"
#include "lex.hpp"
#include "scen.hpp"
#include <algorithm>
#include <set>

namespace sim {

// ------------------------------------------------------------------ strict reader

namespace {

std::set<std::string> const builtin = {"true", "false", "and", "or", "not", "=>", "xor", "=", "distinct", "ite", "<=", "<", ">=", ">", "+", "-", "*", "/"};

struct Tree {
    Token tok{T_LP, ""};
    std::vector<Tree> kids;
    bool list() const { return tok.kind == T_LP; }
    bool sym() const { return tok.kind == T_WORD || tok.kind == T_QUOTED; }
    std::string name() const { return tok.kind == T_QUOTED ? tok.s.substr(1, tok.s.size() - 2) : tok.s; }
};

struct Malformed {};
struct Refuse { std::string why; }; // must be refused
struct Odd {};                      // no opinion

Tree read_tree(Lex& l, Token t)
{
    Tree r;
    r.tok = t;
    if (t.kind == T_BAD || t.kind == T_END || t.kind == T_RP) throw Malformed{};
    if (t.kind != T_LP) return r;
    for (;;)
    {
        Token k = l.next();
        if (k.kind == T_RP) return r;
        r.kids.push_back(read_tree(l, k));
    }
}

// a valid term, with the operators the tool takes two at a time written that way
class Typer {
public:
    std::map<std::string, Fun> const& funs;
    std::vector<std::pair<std::string, Sort>> locals;
    bool optional = false; // a solver of this fragment may refuse it
    bool opaque = false;   // the reference has no opinion about its meaning
    explicit Typer(std::map<std::string, Fun> const& f) : funs(f) {}

    P term(Tree const& e)
    {
        switch (e.tok.kind)
        {
        case T_INT: case T_DEC:
            if (e.tok.s.size() > 1 && e.tok.s[0] == '0' && e.tok.s[1] != '.') optional = true;
            return mk_lit(e.tok.s, parse_number(e.tok.s));
        case T_WORD: case T_QUOTED: return symbol(e.name());
        case T_LP: break;
        default: throw Refuse{"a token that is no term"};
        }
        if (e.kids.empty()) throw Refuse{"an empty application"};
        Tree const& h = e.kids[0];
        if (h.tok.kind == T_RESERVED && h.tok.s == "let") return let(e);
        if (!h.sym()) throw Refuse{"a head that is no symbol"};
        std::vector<P> k;
        for (size_t i = 1; i < e.kids.size(); ++i) k.push_back(term(e.kids[i]));
        std::string n = h.name();
        if (builtin.count(n)) return apply(n, k);
        for (auto& l : locals)
            if (l.first == n) optional = opaque = true;
        auto f = funs.find(n);
        if (f == funs.end()) throw Refuse{"an unknown function"};
        if (f->second.args.size() != k.size()) throw Refuse{"a wrong number of arguments"};
        if (k.empty())
        {
            if (!f->second.defined) throw Refuse{"a constant that is applied"};
            optional = true;
        }
        for (size_t i = 0; i < k.size(); ++i)
            if (k[i]->sort != f->second.args[i]) throw Refuse{"an argument of the wrong sort"};
        return mk_app(n, f->second.ret, k);
    }

private:
    P symbol(std::string const& n)
    {
        if (n == "true") return mk_true();
        if (n == "false") return mk_false();
        for (size_t i = locals.size(); i-- > 0;)
            if (locals[i].first == n) return mk_var(n, locals[i].second);
        auto f = funs.find(n);
        if (f == funs.end()) throw Refuse{"an unknown symbol"};
        if (!f->second.args.empty()) throw Refuse{"a function without arguments"};
        return f->second.defined ? mk_app(n, f->second.ret, {}) : mk_var(n, f->second.ret);
    }
    P let(Tree const& e)
    {
        if (e.kids.size() != 3 || !e.kids[1].list()) throw Malformed{};
        auto n = std::make_shared<Node>();
        n->op = LET;
        std::vector<std::pair<std::string, Sort>> add;
        std::set<std::string> seen;
        if (e.kids[1].kids.empty()) optional = true;
        for (auto& b : e.kids[1].kids)
        {
            if (!b.list() || b.kids.size() != 2 || !b.kids[0].sym()) throw Malformed{};
            std::string x = b.kids[0].name();
            P v = term(b.kids[1]);
            if (builtin.count(x) || !seen.insert(x).second) optional = opaque = true;
            n->names.push_back(x);
            n->kids.push_back(v);
            add.emplace_back(x, v->sort);
        }
        size_t m = locals.size();
        for (auto& a : add) locals.push_back(a);
        P body = term(e.kids[2]);
        locals.resize(m);
        n->kids.push_back(body);
        n->sort = body->sort;
        return n;
    }
    void want(std::vector<P> const& k, Sort s) const
    {
        for (auto& x : k)
            if (x->sort != s) throw Refuse{"an argument of the wrong sort"};
    }
    static bool fixed(P const& t)
    {
        if (t->op == CONST) return true;
        if (t->op != ADD && t->op != SUB && t->op != NEG && t->op != MUL && t->op != DIV) return false;
        return std::all_of(t->kids.begin(), t->kids.end(), fixed);
    }
    static bool zero(P const& t)
    {
        switch (t->op)
        {
        case CONST: return t->val == 0;
        case NEG: return zero(t->kids[0]);
        default: return false;
        }
    }
    P fold(Op op, Sort s, std::vector<P> const& k)
    {
        P r = k[0];
        for (size_t i = 1; i < k.size(); ++i) r = mk(op, s, {r, k[i]});
        return r;
    }
    P apply(std::string const& n, std::vector<P> const& k)
    {
        if (n == "true" || n == "false") throw Refuse{"a constant that is applied"};
        if (n == "and" || n == "or")
        {
            want(k, BOOL);
            optional |= k.empty();
            return mk(n == "and" ? AND : OR, BOOL, k);
        }
        if (n == "not")
        {
            if (k.size() != 1) throw Refuse{"a wrong number of arguments"};
            want(k, BOOL);
            return mk(NOT, BOOL, k);
        }
        if (n == "-" && k.size() == 1)
        {
            want(k, REAL);
            return mk(NEG, REAL, k);
        }
        if (n == "+" || n == "*")
        {
            want(k, REAL);
            optional |= k.size() < 2;
            if (k.empty()) return mk_lit(n == "+" ? "0" : "1", n == "+" ? 0 : 1);
            if (n == "+") return mk(ADD, REAL, k);
            size_t open = 0;
            for (auto& x : k) open += !fixed(x);
            optional |= open > 1 || k.size() > 2;
            return fold(MUL, REAL, k);
        }
        if (n == "ite")
        {
            if (k.size() != 3) throw Refuse{"a wrong number of arguments"};
            if (k[0]->sort != BOOL || k[1]->sort != k[2]->sort) throw Refuse{"an argument of the wrong sort"};
            return mk(ITE, k[1]->sort, k);
        }
        if (k.size() < 2) throw Refuse{"a wrong number of arguments"};
        if (n == "distinct" || n == "=")
        {
            want(k, k[0]->sort);
            if (n == "distinct") return mk(DISTINCT, BOOL, k);
            optional |= k.size() > 2;
            return chain(EQ, k);
        }
        optional |= k.size() > 2;
        if (n == "=>")
        {
            want(k, BOOL);
            P r = k.back();
            for (size_t i = k.size() - 1; i-- > 0;) r = mk(IMPL, BOOL, {k[i], r});
            return r;
        }
        if (n == "xor") { want(k, BOOL); return fold(XOR, BOOL, k); }
        want(k, REAL);
        if (n == "-") return fold(SUB, REAL, k);
        if (n == "/")
        {
            for (size_t i = 1; i < k.size(); ++i)
            {
                optional |= !fixed(k[i]) || k[i]->op != CONST;
                if (zero(k[i])) optional = opaque = true;
            }
            return fold(DIV, REAL, k);
        }
        return chain(n == "<=" ? LE : n == "<" ? LT : n == ">=" ? GE : GT, k);
    }
    P chain(Op op, std::vector<P> const& k)
    {
        if (k.size() == 2) return mk(op, BOOL, k);
        std::vector<P> r;
        for (size_t i = 0; i + 1 < k.size(); ++i) r.push_back(mk(op, BOOL, {k[i], k[i + 1]}));
        return mk(AND, BOOL, r);
    }
};

bool names_command(Tree const& t)
{
    if (t.tok.kind == T_RESERVED && t.tok.s != "let") return true;
    for (auto& k : t.kids) if (names_command(k)) return true;
    return false;
}

// Follows what the tool printed for the damaged script command by command.
struct Judge {
    std::string const& text;
    Tool_out const& got;
    Result& r;
    std::string how;
    std::vector<Answer> as;
    size_t ai = 0;
    Encoder enc;
    bool known = true; // the reference still knows what is asserted
    std::string logic;
    std::map<std::string, Fun> funs;
    int last = -2;

    Judge(std::string const& t, Tool_out const& g, Result& res, std::string h, uint64_t limit) : text(t), got(g), r(res), how(std::move(h))
    {
        as = read_answers(g.out);
        enc.ref.work_limit = limit;
    }
    bool error_next() const { return ai < as.size() && (as[ai].kind == Answer::ERROR || as[ai].kind == Answer::JUNK); }
    bool any_error() const
    {
        if (!got.err.empty()) return true;
        for (size_t i = ai; i < as.size(); ++i) if (as[i].kind == Answer::ERROR || as[i].kind == Answer::JUNK) return true;
        return false;
    }
    void must_refuse(std::string const& why)
    {
        ++r.st["refusals"];
        if (!any_error()) r.fail("accepted-invalid", how + ": " + why + " is accepted without any error; printed: " + clip(got.out));
    }
    static Sort sort_of(Tree const& t)
    {
        if (t.tok.kind == T_QUOTED) throw Odd{};
        if (t.tok.kind != T_WORD || (t.tok.s != "Bool" && t.tok.s != "Real")) throw Refuse{"an unknown sort"};
        return t.tok.s == "Bool" ? BOOL : REAL;
    }
    std::string fresh_name(Tree const& t)
    {
        if (!t.sym()) throw Malformed{};
        std::string n = t.name();
        if (builtin.count(n)) throw Odd{};
        if (funs.count(n)) throw Refuse{"a symbol declared twice"};
        return n;
    }
    template <class F> void solved(F f)
    {
        if (!known) return;
        try { f(); }
        catch (RefLimit&) { known = false; }
        catch (Unknown&) { known = false; }
    }
    // false: stop here
    bool answer_check(bool may_lack)
    {
        if (logic.empty()) { must_refuse("a check-sat without a logic"); return false; }
        if (ai >= as.size() || (as[ai].kind != Answer::SAT && as[ai].kind != Answer::UNSAT))
        {
            if (!may_lack && !known) return false; // a refusal is possible as well
            if (!may_lack) r.fail("answer-missing", how + ": a check-sat that arrived intact, after nothing invalid, is not answered; printed: " + clip(got.out));
            return false;
        }
        int res = as[ai++].kind == Answer::SAT;
        last = res;
        ++r.st["checks"];
        int truth = -1;
        solved([&] { truth = enc.ref.solve(); });
        if (truth < 0) ++r.st["truth_unknown"];
        else
        {
            ++r.st["checks_judged"];
            if (truth != res) r.fail(res ? "wrong-sat" : "wrong-unsat", how + ": answer number " + std::to_string(ai) + " is " + (res ? "sat" : "unsat") + " but what arrived and is valid is " + (truth ? "satisfiable" : "unsatisfiable"));
        }
        return true;
    }
    void run()
    {
        Lex l(text);
        for (;;)
        {
            Token t = l.next();
            if (t.kind == T_END) { at_end(); return; }
            if (t.kind != T_LP) { must_refuse("text outside of a command"); return; }
            size_t b = l.i;
            Token h = l.next();
            Tree e;
            try
            {
                l.i = b;
                e = read_tree(l, t);
            }
            catch (Malformed&)
            {
                // check-sat and exit act before the rest of the command is looked at
                if (h.kind == T_RESERVED && h.s == "exit") return;
                if (h.kind == T_RESERVED && h.s == "check-sat" && !answer_check(true)) return;
                if (h.kind == T_RESERVED && h.s == "get-model" && ai < as.size()) ++ai;
                must_refuse("a malformed command");
                return;
            }
            try
            {
                if (!command(e)) return;
            }
            catch (Malformed&) { must_refuse("a malformed command"); return; }
            catch (Refuse& x)
            {
                ++r.st["refused_commands"];
                must_refuse(x.why);
                return;
            }
            catch (Odd&) { return; }
        }
    }
    void at_end()
    {
        ++r.st["followed_to_the_end"];
        if (ai < as.size()) r.fail("answer-extra", how + ": there is output nobody asked for: " + clip(as[ai].text));
    }
    bool command(Tree const& e)
    {
        if (e.kids.empty() || e.kids[0].tok.kind != T_RESERVED) throw Malformed{};
        std::string h = e.kids[0].tok.s;
        auto& k = e.kids;
        if (h == "exit") { if (k.size() == 1) at_end(); return false; }
        if (h == "check-sat")
        {
            if (!answer_check(k.size() > 1)) return false;
            if (k.size() > 1) throw Malformed{};
            return true;
        }
        if (h == "get-model")
        {
            if (k.size() > 1) { if (ai < as.size()) ++ai; throw Malformed{}; }
            if (ai >= as.size()) { if (known) r.fail("model-missing", how + ": get-model is not answered"); return false; }
            auto& a = as[ai++];
            if (last == 1 ? a.kind != Answer::MODEL : a.kind != Answer::ERROR)
                r.fail("model-junk", how + ": get-model after " + (last == 1 ? "sat" : last == 0 ? "unsat" : "no check-sat") + " is answered by " + clip(a.text));
            return true;
        }
        if (h == "set-logic")
        {
            if (k.size() != 2 || !k[1].sym()) throw Malformed{};
            if (!logic.empty()) throw Odd{};
            if (k[1].name() != "QF_LRA" && k[1].name() != "QF_UFLRA") throw Refuse{"an unknown logic"};
            logic = k[1].name();
            return true;
        }
        if (h == "set-info" || h == "set-option")
        {
            if (k.size() == 3 && k[1].tok.kind == T_KEY) return true;
            throw Odd{};
        }
        if (h == "declare-fun" || h == "declare-const")
        {
            bool fun = h == "declare-fun";
            if (k.size() != (fun ? 4u : 3u)) throw Malformed{};
            Fun f;
            if (fun)
            {
                if (!k[2].list()) throw Malformed{};
                for (auto& a : k[2].kids) f.args.push_back(sort_of(a));
            }
            f.ret = sort_of(k.back());
            if (!f.args.empty() && logic.empty()) throw Odd{};
            bool uf = f.args.empty() || logic == "QF_UFLRA";
            if (!uf)
            {
                if (!k[1].sym()) throw Malformed{};
                if (!error_next()) { must_refuse("a function in a logic without functions"); return false; }
                ++ai;
                return true;
            }
            f.name = fresh_name(k[1]);
            funs[f.name] = f;
            solved([&] { enc.declare(f); });
            return true;
        }
        if (h == "define-fun")
        {
            if (k.size() != 5 || !k[2].list()) throw Malformed{};
            Fun f;
            f.defined = true;
            Typer ty(funs);
            std::set<std::string> seen;
            bool odd = false;
            for (auto& p : k[2].kids)
            {
                if (!p.list() || p.kids.size() != 2 || !p.kids[0].sym()) throw Malformed{};
                f.params.push_back(p.kids[0].name());
                f.args.push_back(sort_of(p.kids[1]));
                odd |= builtin.count(f.params.back()) || !seen.insert(f.params.back()).second;
                ty.locals.emplace_back(f.params.back(), f.args.back());
            }
            f.ret = sort_of(k[3]);
            f.body = ty.term(k[4]);
            if (f.body->sort != f.ret) throw Refuse{"a definition of the wrong sort"};
            f.name = fresh_name(k[1]);
            if (odd || ty.optional || ty.opaque) throw Odd{};
            funs[f.name] = f;
            solved([&] { enc.define(f); });
            return true;
        }
        if (h == "assert")
        {
            if (k.size() != 2) throw Malformed{};
            Typer ty(funs);
            P t;
            try
            {
                t = ty.term(k[1]);
                if (t->sort != BOOL) throw Refuse{"an assertion that is not Boolean"};
            }
            catch (Refuse& x)
            {
                ++r.st["refused_assertions"];
                if (names_command(k[1])) throw;
                if (!error_next()) { must_refuse(x.why); return false; }
                ++ai; // dropped, or the end
                if (ai == as.size() && !got.err.empty()) return false;
                return true;
            }
            // whether it was refused cannot be told if an error follows
            if (ty.optional && error_next()) return false;
            if (ty.optional && !got.err.empty() && ai == as.size()) return false;
            if (ty.opaque) known = false;
            solved([&] { enc.assert_term(t); });
            return true;
        }
        // commands of the language that the tool does not have: they change what later answers mean
        if (h == "push" || h == "pop" || h == "reset" || h == "define-const" || h == "define-sort" || h == "declare-sort") throw Refuse{"a command that is not supported"};
        throw Odd{};
    }
};

// ------------------------------------------------------------------ damage

struct Damage {
    std::string text;
    std::string log;
    size_t first = std::string::npos; // bytes before this one are intact
};

std::vector<std::pair<size_t, size_t>> token_spans(std::string const& t)
{
    std::vector<std::pair<size_t, size_t>> v;
    Lex l(t);
    for (;;)
    {
        Token k = l.next();
        if (k.kind == T_END) break;
        if (k.kind == T_BAD) { ++l.i; continue; }
        v.emplace_back(l.i - k.s.size(), l.i);
    }
    return v;
}

char const* const odd_tokens[] = {"(", ")", "true", "0", "007", "1.50", "and", "or", "not", "=>", "=", "ite", "let", "distinct", "xor", "+", "-", "*",
    "/", "<=", "<", "assert", "check-sat", "get-model", "declare-fun", "define-fun", "Real", "Bool", "Int", "()", "|x0|", "|a b|", "\"str\"", ":kw",
    "#b01", "#", "push", "pop", "reset", "define-const", "declare-const", "(push 1)", "(pop 1)", "(push)", "(pop)", "(reset)", "(echo \"sat\")", "(get-value (x0))", "(declare-sort U 0)", "(define-sort U () Real)", "(define-const k9 Real 1)", "(declare-const x0 Bool)", "(declare-const k8 Real)", "exit", "!", "_", "(check-sat)", "(assert false)", "x0", "b0", "f0", "d0", "x1", "(/ 1 0)", "QF_LRA", "(let ((x0 1)) true)",
    "1.", ".5", ",", "\v", "\f", "x0,x1", "(/ x0 0)", "(/ x0 x0)", "(/ 1 x0)", "(* x0 x0)", "(* x0 x1 0)", "(* 2 3 x0 x1)", "(* x0 2 (/ 1 2) x0)", "(= true 1)", "(= x0 b0)", "(ite b0 true 1)",
    "(ite b0 x0 false)", "(f0)", "(x0)", "(not x0)", "(and b0 x0)", "(+ x0 b0)", "(< b0 x0)", "LRA", "QF_LIRA", "QF_LRAX", "QF_UF", "QF_UFLRAT", "ALL",
    "\"a\"\"b\"", "\"c\nd\"", "|a\nb|", "\\", "'", "`", "[", "]", "{", "}", "1e5", "1/2", "-1", "+1", "0x1", "True", "real", "assertion", "\xc2\xa0", "\xef\xbb\xbf"};

char const* const odd_words[] = {"0", "-0", "1", "-1", "2", "-3", "x", "1x", "x1", "c", "p", "p cnf 2 1", "%", "\n", "0 0", "1.5", "1,2", "1e1", "--1", "-", "+", "+2",
    "99999999999", "-99999999999", "4294967297", "2147483647", "-2147483648", "\np cnf 3 2\n", "\nc x\n", "\ncx 1\n", "1-2", "007", "cnf", "\f", "\v", "#", "12", "-12", "\r", "0x1"};

std::vector<std::pair<size_t, size_t>> word_spans(std::string const& t)
{
    std::vector<std::pair<size_t, size_t>> v;
    for (size_t i = 0; i < t.size();)
    {
        if (isspace((unsigned char)t[i])) { ++i; continue; }
        size_t e = i;
        while (e < t.size() && !isspace((unsigned char)t[e])) ++e;
        v.emplace_back(i, e);
        i = e;
    }
    return v;
}

void harm(Sched& s, Damage& d, Result& r, bool cnf = false)
{
    auto odd = [&](uint32_t i) { return std::string(cnf ? odd_words[i] : odd_tokens[i]); };
    size_t odds = cnf ? std::size(odd_words) : std::size(odd_tokens);
    auto& t = d.text;
    auto say = [&](char const* kind, size_t at) {
        ++r.st[std::string("fault.") + kind];
        d.log += std::string(d.log.empty() ? "" : ", ") + kind + " at " + std::to_string(at);
        d.first = std::min(d.first, at);
    };
    uint32_t kind = s.choose(K_FAULT, 13, 1000);
    auto spans = cnf ? word_spans(t) : token_spans(t);
    auto pick = [&] { return s.choose(K_OP, std::max<size_t>(1, spans.size()), 1000); };
    if (spans.empty() || t.empty()) return;
    auto sp = spans[pick()];
    auto cut = [&](std::pair<size_t, size_t> p) { return t.substr(p.first, p.second - p.first); };
    size_t n = t.size(), at = s.choose(K_OP, n, 1000);
    size_t len = 1 + s.choose(K_OP, 1 + s.choose(K_OP, 40, 1000), 1000);
    switch (kind)
    {
    case 0: case 1:
        say("token_lost", sp.first);
        t.erase(sp.first, sp.second - sp.first);
        break;
    case 2:
        say("token_repeated", sp.second);
        t.insert(sp.second, " " + cut(sp));
        break;
    case 3: case 4:
    {
        say("token_replaced", sp.first);
        std::string w = odd(s.choose(K_OP, odds, 1000));
        t.replace(sp.first, sp.second - sp.first, w);
        break;
    }
    case 5: case 6:
    {
        auto o = spans[pick()];
        if (o.first == sp.first) break;
        if (o.first < sp.first) std::swap(o, sp);
        std::string a = cut(sp), b = cut(o);
        say("tokens_swapped", sp.first);
        t.replace(o.first, b.size(), a);
        t.replace(sp.first, a.size(), b);
        break;
    }
    case 7:
    {
        say("token_inserted", sp.first);
        std::string w = odd(s.choose(K_OP, odds, 1000));
        t.insert(sp.first, w + " ");
        break;
    }
    case 8:
        // another token of the same script
        say("token_mixed_up", sp.first);
        t.replace(sp.first, sp.second - sp.first, cut(spans[pick()]));
        break;
    case 9:
        say("bit_flipped", at);
        t[at] = static_cast<char>(t[at] ^ (1 << s.choose(K_OP, 8, 1000)));
        break;
    case 10:
        say("block_lost", at);
        t.erase(at, len);
        break;
    case 11:
        say("block_repeated", at + std::min(len, n - at));
        t.insert(std::min(at + len, n), t.substr(at, len));
        break;
    case 12:
        say("block_zeroed", at);
        for (size_t i = at; i < std::min(n, at + len); ++i) t[i] = 0;
        break;
    }
}

} // namespace

Case make_damage(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c = make_deliver(prop, seed, thorough);
    c.scen = "damage";
    Rng r(mix(seed, 0xdada));
    c.cfg["stats"] = 0;
    c.cfg["layout"] = 0;
    c.cfg["deliveries"] = thorough ? 8 : 4;
    if (r.chance(1, 2))
    {
        // more of them, smaller ones
        Rng g(mix(seed, 0x9e5));
        Script s, t;
        Gen G(g);
        G.g.bools = g.below(3);
        G.g.reals = 1 + g.below(3);
        G.g.let = G.g.ite = G.g.params = true;
        bool uf = g.chance(1, 3);
        G.g.funs = uf ? 1 + g.below(2) : 0;
        G.g.bool_uf = uf;
        G.names(t, uf ? "QF_UFLRA" : "QF_LRA");
        if (g.chance(1, 3)) G.define(t);
        if (g.chance(1, 2)) G.planted(t, 2 + g.below(4));
        int n = 1 + g.below(4);
        for (int i = 0; i < n; ++i)
        {
            G.add_assert(t, G.boolean(1 + g.below(3)));
            if (g.chance(1, 3)) Gen::add(t, C_CHECK);
            if (g.chance(1, 6)) Gen::add(t, C_MODEL);
        }
        Gen::add(t, C_CHECK);
        c.text["script"] = t.text();
    }
    return c;
}

void exec_damage(Case const& c, Result& r, Logs& logs)
{
    auto args = tool_args(c);
    std::string const& plain = c.str("script");
    Sched s = c.sched(0);
    Delivery whole;
    whole.bytes = plain;
    auto base = run_smt_tool(whole, args);
    note(r, base);
    if (base.sig) r.fail("crash", "the tool is ended by signal " + std::to_string(base.sig) + " on a valid script");
    auto want = read_answers(base.out);
    Hash shape;
    shape.add(plain.size());
    for (int i = 0; i < c.get("deliveries"); ++i)
    {
        Damage d;
        d.text = plain;
        int n = s.choose(K_FAULT, 4, 700);
        if (i == 0 && n == 0) n = 1;
        for (int j = 0; j < n; ++j) harm(s, d, r);
        Delivery del = draw(s, d.text, {});
        auto got = run_smt_tool(del, args);
        note(r, got);
        r.nontrivial = true;
        shape.add(d.log);
        std::string how = "copy " + std::to_string(i + 1) + " (" + d.log + ")";
        if (got.sig)
        {
            std::string e = got.err.substr(0, got.err.find('\n'));
            r.fail("crash", how + ": the tool is ended by signal " + std::to_string(got.sig) + (e.empty() ? "" : ": " + e.substr(0, 200)));
            continue;
        }
        // whatever was refused, what is asserted only grows
        auto as = read_answers(got.out);
        bool unsat = false;
        for (auto& a : as)
        {
            if (a.kind == Answer::SAT && unsat) r.fail("unsat-revoked", how + ": sat is printed after unsat: " + clip(got.out));
            unsat |= a.kind == Answer::UNSAT;
        }
        // commands that arrived before the damage are answered as if there were none
        size_t due = 0;
        if (d.first != std::string::npos)
        {
            SReader rd(plain);
            try
            {
                while (!rd.done())
                {
                    SExp e = rd.read();
                    if (rd.i > d.first) break;
                    std::string h = e.kids.empty() ? "" : e.kids[0].s;
                    if (h == "exit") break;
                    due += h == "check-sat" || h == "get-model";
                }
            }
            catch (std::runtime_error&) {}
        }
        for (size_t j = 0; j < std::min(due, want.size()); ++j)
            if (j >= as.size() || as[j].text != want[j].text)
            {
                r.fail("lost-answer", how + ": answer number " + std::to_string(j + 1) + ", due before the damage, is " + (j < as.size() ? clip(as[j].text) : "not given") + " instead of " + clip(want[j].text));
                break;
            }
        Judge judge(d.text, got, r, how, 400000);
        judge.run();
        if (!r.cls.empty()) break;
    }
    r.shape = shape.h;
    r.sample = plain.substr(0, 1500);
    logs.push_back(s.log);
}

// ------------------------------------------------------------------ C26

namespace {

// What a clause file says, read word by word.
struct Cnf_reading {
    bool header = false, refuse = false, odd = false, huge = false;
    std::string why;
    long vars = 0, count = 0;
    Cnf first, all;      // the announced number of clauses, all of them
    bool empty = false;  // one of the announced clauses is empty: everything after it may be left unread

    void no(std::string w) { if (!refuse) { refuse = true; why = std::move(w); } }
    explicit Cnf_reading(std::string const& t)
    {
        std::istringstream in(t);
        std::string line;
        std::vector<int> k;
        // an int, or nothing
        auto number = [&](std::string const& w, long& v) {
            size_t i = w[0] == '-' || w[0] == '+';
            if (i == w.size() || w.find_first_not_of("0123456789", i) != std::string::npos) return false;
            if (w[0] == '+' || (w[i] == '0' && (w.size() > 1))) odd = true;
            if (w.size() > 12) return false;
            v = std::stol(w);
            return v >= -2147483647L - 1 && v <= 2147483647L;
        };
        while (!refuse && !huge && std::getline(in, line))
        {
            size_t b = 0;
            while (b < line.size() && isspace((unsigned char)line[b])) ++b;
            line.erase(0, b);
            if (line.empty() || line[0] == 'c') continue;
            if (line[0] == '%') break;
            if (line.compare(0, 5, "p cnf") == 0)
            {
                if (header) { no("a second problem line"); break; }
                std::string rest = line.substr(5);
                if (rest.empty() || !isspace((unsigned char)rest[0])) odd = true;
                auto sp = word_spans(rest);
                if (sp.size() < 2) { no("a problem line without its numbers"); break; }
                if (sp.size() > 2) odd = true;
                auto w = [&](int i) { return rest.substr(sp[i].first, sp[i].second - sp[i].first); };
                // 3x 4 and the like
                if (!number(w(0), vars)) { no("a problem line without the number of variables"); break; }
                if (vars > 100000) { huge = odd = true; break; }
                if (!number(w(1), count))
                {
                    if (isdigit((unsigned char)w(1)[0]) || w(1)[0] == '-' || w(1)[0] == '+') odd = true;
                    no("a problem line without the number of clauses");
                    break;
                }
                if (vars < 0 || count < 0) { no("a negative number in the problem line"); break; }
                header = true;
                continue;
            }
            for (auto [x, y] : word_spans(line))
            {
                std::string w = line.substr(x, y - x);
                long v = 0;
                bool is = number(w, v);
                // 1-2 is read as two numbers
                if (!is && isdigit((unsigned char)w.back()) && w.find_first_not_of("0123456789+-") == std::string::npos && w.size() < 12) odd = true;
                // the 0 of 0x may end a clause before the rest is seen
                if (!is && strtol(w.c_str(), nullptr, 10) == 0 && isdigit((unsigned char)w[w[0] == '-' || w[0] == '+'])) odd = true;
                if (!header) { no("clauses before the problem line"); break; }
                if (!is) { no("something that is no literal"); break; }
                if (v > vars || v < -vars) { no("a literal of an unknown variable"); break; }
                if (v) { k.push_back(static_cast<int>(v)); continue; }
                if (static_cast<long>(all.clauses.size()) < count)
                {
                    first.clauses.push_back(k);
                    empty |= k.empty();
                }
                all.clauses.push_back(k);
                k.clear();
            }
        }
        first.vars = all.vars = static_cast<int>(vars);
        if (refuse || huge) return;
        if (!header) no("a file without a problem line");
        else if (static_cast<long>(all.clauses.size()) < count) no("a file with too few clauses");
        if (!k.empty()) odd = true; // a clause that is not ended
    }
};

} // namespace

Case make_damage_cnf(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c = make_deliver_cnf(prop, seed, thorough);
    c.scen = "damage-cnf";
    c.cfg["deliveries"] = thorough ? 10 : 6;
    return c;
}

void exec_damage_cnf(Case const& c, Result& r, Logs& logs)
{
    std::string plain = cnf_layout(c);
    Sched s = c.sched(0);
    Hash shape;
    shape.add(plain.size());
    Hash hh;
    for (int i = 0; i < c.get("deliveries"); ++i)
    {
        Damage d;
        d.text = plain;
        int n = s.choose(K_FAULT, 4, 800);
        if (i == 0 && n == 0) n = 1;
        for (int j = 0; j < n; ++j) harm(s, d, r, true);
        Cnf_reading f(d.text);
        if (f.huge) { ++r.st["files_too_large"]; continue; }
        Delivery del = draw(s, d.text, {});
        auto got = run_sat_tool(del);
        r.st["tool_runs"] += 1;
        r.steps += got.reads;
        std::string first = got.out.substr(0, got.out.find('\n'));
        int w = first == "SAT" ? 1 : first == "UNSAT" ? 0 : -1;
        hh.add(first); hh.add(got.code); hh.add(got.sig); hh.add(got.reads);
        shape.add(d.log);
        r.nontrivial = true;
        std::string how = "copy " + std::to_string(i + 1) + " (" + d.log + ")";
        if (got.sig) { r.fail("crash", how + ": the tool is ended by signal " + std::to_string(got.sig) + ": " + clip(got.err)); break; }
        if (w < 0)
        {
            if (got.code == 0 || got.code == 1) r.fail("error-as-verdict", how + " gives no verdict but exit status " + std::to_string(got.code));
            if (got.err.empty()) r.fail("silent-end", how + ": neither a verdict nor an error is printed");
            if (!f.refuse && !f.odd && f.all.clauses.size() == f.first.clauses.size())
                r.fail("refused-valid", how + ": a file that reads as a valid one is refused: " + clip(got.err));
            ++r.st["files_refused"];
        }
        else
        {
            if ((w == 1) != (got.code == 1) || got.code < 0 || got.code > 1) r.fail("verdict-status", how + " is answered " + first + " with exit status " + std::to_string(got.code));
            if (f.refuse && !f.odd && !(w == 0 && f.empty))
                r.fail("accepted-invalid", how + ": " + f.why + " is accepted without an error; printed: " + first);
            if (!f.refuse)
            {
                int a = cnf_truth(f.first, 3000000), b = cnf_truth(f.all, 3000000);
                if (a >= 0 && b >= 0 && w != a && w != b && !f.odd)
                    r.fail(w ? "wrong-sat" : "wrong-unsat", how + " is answered " + first + ", the clauses it says are " + (a ? "satisfiable" : "unsatisfiable"));
            }
            ++r.st["files_answered"];
        }
        if (!r.cls.empty()) break;
    }
    r.hash = hh.h;
    r.shape = shape.h;
    r.sample = plain.substr(0, 1500);
    logs.push_back(s.log);
}

} // namespace sim
