// C21: several script lexers at work in turn, their inputs delivered in pieces, ending early,
// pausing, given up midway and replaced. Every token is compared with those of a strict reader.
#include "case.hpp"
#include "lex.hpp"
#include "scen.hpp"
#include "smt2_lexer.h"
#include <algorithm>
#include <istream>
#include <memory>
#include <streambuf>

namespace sim {

namespace {

using Y = yaga::parser::Token;

std::map<std::string, Y> const words = {{"assert", Y::ASSERT_TOK}, {"as", Y::AS_TOK}, {"!", Y::ATTRIBUTE_TOK}, {"check-sat", Y::CHECK_SAT_TOK},
    {"declare-const", Y::DECLARE_CONST_TOK}, {"declare-fun", Y::DECLARE_FUN_TOK}, {"declare-sort", Y::DECLARE_SORT_TOK},
    {"define-const", Y::DEFINE_CONST_TOK}, {"define-fun", Y::DEFINE_FUN_TOK}, {"define-sort", Y::DEFINE_SORT_TOK}, {"echo", Y::ECHO_TOK},
    {"exit", Y::EXIT_TOK}, {"get-assertions", Y::GET_ASSERTIONS_TOK}, {"get-assignment", Y::GET_ASSIGNMENT_TOK}, {"get-info", Y::GET_INFO_TOK},
    {"get-model", Y::GET_MODEL_TOK}, {"get-option", Y::GET_OPTION_TOK}, {"get-unsat-core", Y::GET_UNSAT_CORE_TOK}, {"get-value", Y::GET_VALUE_TOK},
    {"_", Y::INDEX_TOK}, {"let", Y::LET_TOK}, {"match", Y::MATCH_TOK}, {"par", Y::PAR_TOK}, {"pop", Y::POP_TOK}, {"push", Y::PUSH_TOK},
    {"reset", Y::RESET_TOK}, {"set-info", Y::SET_INFO_TOK}, {"set-logic", Y::SET_LOGIC_TOK}, {"set-option", Y::SET_OPTION_TOK}};

Y expected(Token const& k)
{
    switch (k.kind)
    {
    case T_END: return Y::EOF_TOK;
    case T_LP: return Y::LPAREN_TOK;
    case T_RP: return Y::RPAREN_TOK;
    case T_WORD: return Y::SYMBOL;
    case T_RESERVED: return words.at(k.s);
    case T_QUOTED: return Y::QUOTED_SYMBOL;
    case T_INT: return Y::INTEGER_LITERAL;
    case T_DEC: return Y::DECIMAL_LITERAL;
    case T_HEX: return k.s[1] == 'b' ? Y::BINARY_LITERAL : Y::HEX_LITERAL;
    case T_STR: return Y::STRING_LITERAL;
    case T_KEY: return Y::KEYWORD;
    default: return Y::NONE;
    }
}

// ------------------------------------------------------------------ texts

char const* const sym_first = "abcxyzABCXYZ~!@$%^&*+=<>.?/_-";
char const* const sym_rest = "abcxyzABCXYZ0129~!@$%^&*+=<>.?/_-";

std::string any_bytes(Rng& r, int n, char const* not_these)
{
    std::string s;
    for (int i = 0; i < n; ++i)
    {
        char c = r.chance(3, 4) ? "abz019 ()|;\"#:\n\t\\_.!"[r.below(21)] : static_cast<char>(r.below(256));
        if (c ? strchr(not_these, c) != nullptr : strlen(not_these) > 8) c = 'q';
        s += c;
    }
    return s;
}

std::string digits(Rng& r, int n, char const* of)
{
    std::string s;
    for (int i = 0; i < n; ++i) s += of[r.below(strlen(of))];
    return s;
}

int length(Rng& r, bool may_be_long)
{
    int k = r.range(0, 199);
    // the reader's work grows with the square of a token's length
    if (k == 0 && may_be_long) return r.chance(1, 60) ? r.range(16000, 17000) : r.range(400, 2500);
    if (k < 3 && may_be_long) return r.range(100, 500);
    return k < 60 ? r.range(1, 2) : r.range(1, 14);
}

std::string symbol(Rng& r, bool may_be_long)
{
    std::string s(1, sym_first[r.below(strlen(sym_first))]);
    return s + digits(r, length(r, may_be_long) - 1, sym_rest);
}

std::string reserved_like(Rng& r)
{
    auto it = words.begin();
    std::advance(it, r.below(words.size()));
    std::string s = it->first;
    switch (r.range(0, 15))
    {
    case 0: s.pop_back(); break;
    case 1: s += sym_rest[r.below(strlen(sym_rest))]; break;
    case 2: s[r.below(s.size())] = sym_first[r.below(strlen(sym_first))]; break;
    case 3: s.insert(r.below(s.size() + 1), r.chance(1, 2) ? " " : "\n"); break;
    case 4: s = sym_first[r.below(strlen(sym_first))] + s; break;
    case 5: s = (r.chance(1, 2) ? ":" : "|") + s; if (s[0] == '|') s += '|'; break;
    case 6: { auto j = words.begin(); std::advance(j, r.below(words.size())); s += j->first; break; }
    case 7: s[0] = toupper(s[0]); break;
    default: break;
    }
    return s;
}

std::string piece(Rng& r, bool junk)
{
    if (junk)
        switch (r.range(0, 9))
        {
        case 0: return "|" + any_bytes(r, length(r, true), "|\\");                                // never closed, unless by what follows
        case 1: return "|" + any_bytes(r, r.range(0, 6), "|\\") + "\\" + any_bytes(r, 2, "|") + "|";
        case 2: return "\"" + any_bytes(r, length(r, true), "\"");
        case 3: return "#" + digits(r, r.range(0, 2), "bx2g ");
        case 4: return ":" + digits(r, r.range(0, 1), "09 ):");
        case 5: return std::string(1, "\\'`,[]{}"[r.below(8)]);
        case 6: return std::string(1, static_cast<char>(r.range(128, 255)));
        case 7: return std::string(1, static_cast<char>(r.range(0, 31)));
        case 8: return std::string(1, '\x7f');
        default: return std::string(1, '\0');
        }
    switch (r.range(0, 19))
    {
    case 0: case 1: case 2: case 3: return reserved_like(r);
    case 4: case 5: case 6: return symbol(r, true);
    case 7: return "|" + any_bytes(r, r.chance(1, 8) ? 0 : length(r, true), "|\\") + "|";
    case 8:
    {
        std::string s = "\"" + any_bytes(r, r.chance(1, 8) ? 0 : length(r, true), "\"");
        for (int k = r.range(0, 3); k > 1; --k) s += "\"\"" + any_bytes(r, r.range(0, 3), "\"");
        return s + "\"";
    }
    case 9: case 10: return digits(r, length(r, true), "0123456789");
    case 11: return digits(r, r.range(1, 8), "0123456789") + "." + digits(r, length(r, false), "0123456789");
    case 12: return digits(r, r.range(1, 3), "0123456789") + (r.chance(1, 2) ? "." : "") + symbol(r, false);
    case 13: return "#b" + digits(r, length(r, true), "01");
    case 14: return "#x" + digits(r, length(r, true), "0123456789abcdefABCDEF");
    case 15: return ":" + symbol(r, true);
    case 16: return ";" + any_bytes(r, r.chance(1, 8) ? 0 : length(r, true), "\n") + (r.chance(7, 8) ? "\n" : "\r\n");
    case 17: return digits(r, r.range(1, 4), "()");
    case 18: return digits(r, r.chance(1, 60) ? r.range(500, 2500) : r.range(1, 6), " \t\r\f\n");
    default: return digits(r, r.range(1, 6), "0123456789.#bx:|\"abc;\n ");
    }
}

std::string make_text(Rng& r, bool thorough)
{
    std::string s;
    // what follows lies about the edges of the blocks a reader takes
    if (r.chance(1, 3))
    {
        int n = (1 << r.range(9, 15)) - r.range(0, 24);
        char const* fill = n < 2000 && r.chance(1, 2) ? " " : r.chance(1, 2) ? "x " : "(\n";
        while (static_cast<int>(s.size()) < n) s += fill;
    }
    int n = r.range(1, thorough ? 120 : 60);
    int junk = r.chance(1, 2) ? 0 : r.range(1, n);
    for (int i = 1; i <= n; ++i)
    {
        s += piece(r, i == junk);
        int k = r.range(0, 9);
        if (k < 6) s += ' ';
        else if (k < 8) s += '\n';
        if (s.size() > 60000) break;
    }
    return s;
}

// the input of a lexer, delivered in pieces
class Pieces : public std::streambuf {
public:
    std::string text;
    size_t at = 0, end;
    std::vector<int> sizes;
    uint64_t reads = 0, shorts = 0;
    explicit Pieces(std::string const& t) : text(t), end(t.size()) {}
    int_type underflow() override
    {
        if (at >= end) return traits_type::eof();
        size_t k = std::min<size_t>(end - at, 1 << 16);
        if (!sizes.empty())
        {
            size_t w = sizes[reads % sizes.size()];
            if (w && w < k) { k = w; ++shorts; }
        }
        ++reads;
        area = text.substr(at, k);
        at += k;
        setg(area.data(), area.data(), area.data() + k);
        return traits_type::to_int_type(area[0]);
    }

private:
    std::string area;
};

struct Party {
    yaga::parser::smt2_lexer lexer;
    std::vector<std::string> texts; // still to come
    std::unique_ptr<Pieces> source;
    std::unique_ptr<std::istream> in;
    std::string part, rest; // what the input holds before it (first) ends, and after that
    std::unique_ptr<Lex> strict;
    size_t tokens = 0;
};

std::string show(std::string const& s)
{
    std::string o;
    for (unsigned char c : s.substr(0, 60))
        if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += c;
    return s.size() > 60 ? o + "... (" + std::to_string(s.size()) + " characters)" : o;
}

} // namespace

Case make_lex(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.scen = "lexer";
    c.seed = seed;
    Rng r(mix(seed, 0x1e8));
    c.cfg["lexers"] = r.range(1, 4);
    int n = static_cast<int>(c.cfg["lexers"]) + r.range(0, thorough ? 6 : 4);
    c.cfg["texts"] = n;
    for (int i = 0; i < n; ++i)
        c.text["t" + std::to_string(i)] = i && r.chance(1, 8) ? c.text["t0"] : make_text(r, thorough);
    c.cfg["switch"] = r.pick(std::vector<long>{0, 50, 500, 950});
    c.cfg["chunks"] = r.range(0, 3);
    c.cfg["giveup"] = r.pick(std::vector<long>{0, 0, 4, 30});
    return c;
}

void exec_lex(Case const& c, Result& r, Logs& logs)
{
    Sched s = c.sched(0);
    Hash hh, shape;
    int n = static_cast<int>(c.get("lexers"));
    std::vector<std::unique_ptr<Party>> all;
    for (int i = 0; i < n; ++i) all.push_back(std::make_unique<Party>());
    for (int i = 0; i < c.get("texts"); ++i) all[i % n]->texts.push_back(c.str("t" + std::to_string(i)));
    for (auto& p : all) std::reverse(p->texts.begin(), p->texts.end());
    auto leave = [&](Party& p) {
        if (p.source)
        {
            r.st["reads"] += p.source->reads;
            r.st["fault.short_read"] += p.source->shorts;
            r.steps += p.source->reads;
        }
        p.strict.reset();
        p.rest.clear();
    };
    auto start = [&](Party& p) {
        p.source = std::make_unique<Pieces>(p.texts.back());
        p.texts.pop_back();
        switch (c.get("chunks"))
        {
        case 1: p.source->sizes = {1}; break;
        case 2: for (int i = 0; i < 8; ++i) p.source->sizes.push_back(1 + s.choose(K_READ, 40, 900)); break;
        case 3: for (int i = 0; i < 4; ++i) p.source->sizes.push_back(1 + s.choose(K_READ, 9000, 900)); break;
        default: break;
        }
        size_t len = p.source->text.size();
        p.part = p.source->text;
        p.rest.clear();
        uint32_t how = s.choose(K_FAULT, 4, 500);
        size_t at = how ? s.choose(K_FAULT, len + 1, 1000) : len;
        if (how == 1 || how == 2)
        {
            ++r.st[how == 1 ? "fault.input_ends_early" : "fault.input_pauses"];
            p.source->end = at;
            p.part = p.source->text.substr(0, at);
            if (how == 2) p.rest = p.source->text.substr(at);
        }
        p.in = std::make_unique<std::istream>(p.source.get());
        p.lexer.yyrestart(*p.in);
        p.strict = std::make_unique<Lex>(p.part);
        shape.add(at);
        ++r.st["texts_read"];
    };
    size_t cur = 0;
    for (;;)
    {
        std::vector<size_t> open;
        for (size_t i = 0; i < all.size(); ++i)
            if (all[i]->strict || !all[i]->texts.empty()) open.push_back(i);
        if (open.empty()) break;
        if (std::find(open.begin(), open.end(), cur) == open.end()) cur = open[0];
        uint32_t sw = s.choose(K_SWITCH, open.size(), static_cast<int>(c.get("switch")));
        if (sw)
        {
            size_t i = std::find(open.begin(), open.end(), cur) - open.begin();
            cur = open[(i + sw) % open.size()];
            shape.add(cur);
        }
        Party& p = *all[cur];
        if (p.strict && !p.texts.empty() && s.choose(K_OP, 2, static_cast<int>(c.get("giveup"))))
        {
            ++r.st["fault.input_given_up"];
            leave(p);
        }
        if (!p.strict) start(p);
        std::string where = "lexer " + std::to_string(cur + 1) + ", character " + std::to_string(p.strict->i);
        Token want = p.strict->next();
        Y k = Y::NONE;
        bool bad = false;
        std::string got;
        try
        {
            k = p.lexer.next_token();
            if (k != Y::EOF_TOK) got = p.lexer.token_string();
        }
        catch (std::exception&) { bad = true; }
        ++r.steps;
        ++p.tokens;
        r.nontrivial = true;
        hh.add(cur); hh.add(bad ? 9999 : static_cast<uint64_t>(k)); hh.add(got);
        if (bad != (want.kind == T_BAD))
        {
            if (bad) r.fail("token-refused", where + ": the token '" + show(want.s) + "' is refused");
            else r.fail("token-accepted", where + ": what is no token is read as '" + show(got) + "'");
            break;
        }
        if (bad) { ++r.st["refused"]; leave(p); continue; }
        if (want.s != got) { r.fail("token-text", where + ": read '" + show(got) + "' where the token is '" + show(want.s) + "'"); break; }
        if (k != expected(want))
        {
            r.fail("token-kind", where + ": '" + show(got) + "' is read as a token of kind " + std::to_string(static_cast<int>(k)) + ", it is of kind " + std::to_string(static_cast<int>(expected(want))));
            break;
        }
        ++r.st["tokens"];
        if (want.kind == T_END)
        {
            ++r.st["ends"];
            if (!p.rest.empty())
            {
                // the same input goes on
                p.part = p.rest;
                p.rest.clear();
                p.source->end = p.source->text.size();
                p.in->clear();
                p.lexer.yyrestart(*p.in);
                p.strict = std::make_unique<Lex>(p.part);
                ++r.st["inputs_resumed"];
            }
            else leave(p);
        }
    }
    for (auto& p : all) shape.add(p->tokens);
    r.hash = hh.h;
    shape.add(hh.h);
    r.shape = shape.h;
    r.sample = show(c.str("t0"));
    logs.push_back(s.log);
}

} // namespace sim
