// The token language, read strictly: what the script lexer should make of a character sequence.
#pragma once
#include <cctype>
#include <cstring>
#include <set>
#include <string>

namespace sim {

enum Tok { T_END, T_BAD, T_LP, T_RP, T_WORD, T_RESERVED, T_QUOTED, T_INT, T_DEC, T_HEX, T_STR, T_KEY };

struct Token { Tok kind; std::string s; };

inline bool sym_char(unsigned char c) { return c < 128 && (isalnum(c) || (c && strchr("~!@$%^&*+=<>.?/_-", c))); }

inline std::set<std::string> const reserved = {"assert", "as", "!", "check-sat", "declare-const", "declare-fun", "declare-sort", "define-const",
    "define-fun", "define-sort", "echo", "exit", "get-assertions", "get-assignment", "get-info", "get-model", "get-option",
    "get-unsat-core", "get-value", "_", "let", "match", "par", "pop", "push", "reset", "set-info", "set-logic", "set-option"};

struct Lex {
    std::string const& t;
    size_t i = 0;
    explicit Lex(std::string const& text) : t(text) {}
    Token next()
    {
        for (;;)
        {
            while (i < t.size() && t[i] && strchr(" \t\r\f\n", t[i])) ++i;
            if (i < t.size() && t[i] == ';')
                while (i < t.size() && t[i] != '\n') ++i;
            else break;
        }
        if (i >= t.size()) return {T_END, ""};
        size_t b = i;
        unsigned char c = t[i];
        auto upto = [&](size_t e, Tok k) { i = e; return Token{k, t.substr(b, e - b)}; };
        if (c == '(') return upto(i + 1, T_LP);
        if (c == ')') return upto(i + 1, T_RP);
        if (c == '|')
        {
            size_t e = t.find_first_of("|\\", i + 1);
            if (e == std::string::npos || t[e] != '|') return {T_BAD, ""};
            return upto(e + 1, T_QUOTED);
        }
        if (c == '"')
        {
            size_t e = i + 1, longest = 0;
            for (;;)
            {
                e = t.find('"', e);
                if (e == std::string::npos) // the longest literal there is, if any
                    return longest ? upto(longest, T_STR) : Token{T_BAD, ""};
                if (e + 1 < t.size() && t[e + 1] == '"') { longest = e + 1; e += 2; continue; }
                return upto(e + 1, T_STR);
            }
        }
        if (isdigit(c))
        {
            size_t e = i;
            while (e < t.size() && isdigit((unsigned char)t[e])) ++e;
            if (e + 1 < t.size() && t[e] == '.' && isdigit((unsigned char)t[e + 1]))
            {
                ++e;
                while (e < t.size() && isdigit((unsigned char)t[e])) ++e;
                return upto(e, T_DEC);
            }
            return upto(e, T_INT);
        }
        if (c == '#' && i + 2 < t.size() && ((t[i + 1] == 'b' && (t[i + 2] == '0' || t[i + 2] == '1')) || (t[i + 1] == 'x' && isxdigit((unsigned char)t[i + 2]))))
        {
            size_t e = i + 2;
            while (e < t.size() && (t[i + 1] == 'b' ? t[e] == '0' || t[e] == '1' : isxdigit((unsigned char)t[e]) != 0)) ++e;
            return upto(e, T_HEX);
        }
        bool key = c == ':';
        if (key && (i + 1 >= t.size() || !sym_char(t[i + 1]) || isdigit((unsigned char)t[i + 1]))) return {T_BAD, ""};
        if (!key && !sym_char(c)) return {T_BAD, ""};
        size_t e = i + 1;
        while (e < t.size() && sym_char(t[e])) ++e;
        Token k = upto(e, key ? T_KEY : T_WORD);
        if (!key && reserved.count(k.s)) k.kind = T_RESERVED;
        return k;
    }
};

} // namespace sim
