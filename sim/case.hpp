// A case is everything one simulated run depends on. exec_case(case) is a pure function of the
// case and of the code under test.
#pragma once
#include "core.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>

namespace sim {

struct Case {
    std::string prop, scen;
    uint64_t seed = 0;
    std::map<std::string, long> cfg;
    std::map<std::string, std::string> text;
    std::vector<std::vector<uint32_t>> choices; // recorded choice streams
    bool replay = false;                        // take choices from `choices`

    long get(std::string const& k, long def = 0) const
    {
        auto it = cfg.find(k);
        return it == cfg.end() ? def : it->second;
    }
    std::string const& str(std::string const& k) const
    {
        static std::string const empty;
        auto it = text.find(k);
        return it == text.end() ? empty : it->second;
    }
    // scheduler for stream i
    Sched sched(size_t i) const
    {
        Sched s;
        s.rng = Rng(mix(seed, 0x5eed0000 + i));
        s.replay = replay;
        if (replay && i < choices.size()) s.script = choices[i];
        return s;
    }
    size_t weight() const
    {
        size_t n = 0;
        for (auto& c : choices)
            for (auto v : c) n += v ? 4 : 0;
        for (auto& [k, v] : text) n += v.size();
        return n;
    }
};

// what a run adds to its result: the choices it took
using Logs = std::vector<std::vector<uint32_t>>;

inline void write_case(std::ostream& o, Case const& c, Result const* r)
{
    o << "simyaga-replay 1\nprop " << c.prop << "\nscen " << c.scen << "\nseed " << c.seed << "\n";
    for (auto& [k, v] : c.cfg) o << "cfg " << k << " " << v << "\n";
    for (auto& [k, v] : c.text) o << "text " << k << " " << v.size() << "\n" << v << "\n";
    for (size_t i = 0; i < c.choices.size(); ++i)
    {
        o << "choices " << c.choices[i].size();
        for (auto v : c.choices[i]) o << " " << v;
        o << "\n";
    }
    if (r)
    {
        o << "expect-class " << r->cls << "\n";
        o << "expect-hash " << r->hash << "\n";
        std::string d = r->detail;
        for (auto& ch : d) if (ch == '\n') ch = ' ';
        o << "detail " << d << "\n";
    }
    o << "end\n";
}

inline bool read_case(std::istream& in, Case& c, std::string& cls, uint64_t& hash)
{
    std::string line;
    if (!std::getline(in, line) || line != "simyaga-replay 1") return false;
    while (std::getline(in, line))
    {
        std::istringstream s(line);
        std::string k;
        s >> k;
        if (k == "end") { c.replay = true; return true; }
        if (k == "prop") s >> c.prop;
        else if (k == "scen") s >> c.scen;
        else if (k == "seed") s >> c.seed;
        else if (k == "cfg") { std::string n; long v; s >> n >> v; c.cfg[n] = v; }
        else if (k == "text")
        {
            std::string n; size_t z;
            s >> n >> z;
            std::string t(z, 0);
            in.read(t.data(), z);
            in.get();
            c.text[n] = t;
        }
        else if (k == "choices")
        {
            size_t n;
            s >> n;
            std::vector<uint32_t> v(n);
            for (auto& x : v) s >> x;
            c.choices.push_back(v);
        }
        else if (k == "expect-class") { std::getline(s, cls); if (!cls.empty()) cls.erase(0, 1); }
        else if (k == "expect-hash") s >> hash;
    }
    return false;
}

// implemented by the scenarios
Case make_case(std::string const& prop, uint64_t seed, bool thorough);
void exec_case(Case const& c, Result& r, Logs& logs);
// text keys that may be shrunk and how: 's' script, 'c' CNF, 'l' lines, 0 not at all
char text_kind(std::string const& key);
std::vector<int> script_truths(std::string const& text);
int cnf_text_truth(std::string const& text);

} // namespace sim
