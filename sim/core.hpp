// Core of the simulator: one PRNG, one choice log, one case description, one result.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>

namespace sim {

inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t s = a ^ (b * 0xd6e8feb86659fd93ull);
    return splitmix(s);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { splitmix(s); }
    uint64_t next() { return splitmix(s); }
    // uniform in [0, n)
    uint32_t below(uint32_t n) { return n <= 1 ? 0 : static_cast<uint32_t>(next() % n); }
    // uniform in [lo, hi]
    int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo + 1))); }
    bool chance(int num, int den) { return static_cast<int>(below(den)) < num; }
    template <class T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
};

struct Hash {
    uint64_t h = 0xcbf29ce484222325ull;
    void add(uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0x100000001b3ull;
    }
    void add(std::string const& s)
    {
        add(s.size());
        for (unsigned char c : s)
            add(c);
    }
};

// Kinds of choices the simulator takes; each has a counter of non-default choices.
enum Kind : uint8_t {
    K_VAR,      // decided variable differs from the heuristic's
    K_VALUE,    // suggested rational value
    K_PHASE,    // polarity strategy for the next decision
    K_RESTART,  // forced restart
    K_SPLIT,    // which literal of a semantic split is decided
    K_SWITCH,   // switch to another session
    K_READ,     // short read / chunk size
    K_FAULT,    // I/O or allocation fault
    K_OP,       // operation of a component-level client
    K_NUM
};
inline char const* kind_names[] = {"variable_choice_overridden", "rational_value_overridden", "polarity_overridden",
    "forced_restart", "split_literal_overridden", "session_switch", "short_read", "fault", "client_op"};

// The choice log. In record mode choices come from the PRNG; in replay mode from a file. 0 is
// always the default (what the code under test would do undisturbed).
struct Sched {
    Rng rng{1};
    bool replay = false;
    std::vector<uint32_t> script; // choices to replay
    std::vector<uint32_t> log;    // choices taken
    uint64_t counts[K_NUM] = {};
    size_t limit = 200000; // after this many choices only defaults are taken

    uint32_t put(Kind k, uint32_t v)
    {
        log.push_back(v);
        if (v)
            ++counts[k];
        return v;
    }
    // default (0) with probability 1 - permille/1000, otherwise uniform in [1, n)
    uint32_t choose(Kind k, uint32_t n, int permille)
    {
        if (n <= 1)
            return 0;
        if (replay)
        {
            uint32_t v = log.size() < script.size() ? script[log.size()] : 0;
            return put(k, v % n);
        }
        uint32_t v = 0;
        if (log.size() < limit && permille > 0 && static_cast<int>(rng.below(1000)) < permille)
            v = 1 + rng.below(n - 1);
        return put(k, v);
    }
};

struct Stats {
    std::map<std::string, uint64_t> c;
    uint64_t& operator[](std::string const& k) { return c[k]; }
};

// Thrown (never through code under test that swallows it) to abandon a run.
struct Abandon : std::exception {
    char const* what() const noexcept override { return "abandoned"; }
};

struct Result {
    std::string cls;    // violation class; empty when the property held
    std::string detail;
    uint64_t hash = 0;  // hash over the whole event history
    uint64_t shape = 0; // hash used to count distinct histories
    bool nontrivial = false;
    std::string sample;
    Stats st;
    uint64_t steps = 0; // simulated time: number of scheduler events
    void fail(std::string const& c, std::string const& d)
    {
        if (cls.empty())
        {
            cls = c;
            detail = d;
        }
    }
};

} // namespace sim
