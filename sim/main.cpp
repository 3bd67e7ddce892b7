// Orchestrator: seeded search over many simulated runs, each in its own process; minimisation and
// replay of what fails; evidence.
#include "case.hpp"
#include "gen.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;
using Clock = std::chrono::steady_clock;

namespace {

double now()
{
    static auto t0 = Clock::now();
    return std::chrono::duration<double>(Clock::now() - t0).count();
}

#if defined(__SANITIZE_ADDRESS__)
constexpr bool sanitized = true;
#else
constexpr bool sanitized = false;
#endif

// ------------------------------------------------------------------ one run in a child process

constexpr size_t box_size = 16u << 20;
struct Box { // shared between a worker and its child
    volatile int done;
    size_t len;
    char data[box_size - 64];
};

struct Out { // outcome of a run
    Result r;
    Logs logs;
    bool undecided = false;
};

void put(std::string& o, std::string const& s) { o += std::to_string(s.size()) + ":" + s; }
void putn(std::string& o, uint64_t v) { o += std::to_string(v) + ";"; }
struct Get {
    char const* p; char const* e;
    uint64_t n() { uint64_t v = 0; while (p < e && *p != ';' && *p != ':') v = v * 10 + (*p++ - '0'); ++p; return v; }
    std::string s() { size_t k = n(); std::string r(p, std::min<size_t>(k, e - p)); p += r.size(); return r; }
};

int cpu_limit = 20;

struct Lane {
    Box* box;
    int err; // memfd for stderr
    Lane()
    {
        box = static_cast<Box*>(mmap(nullptr, box_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (box == MAP_FAILED) { perror("mmap"); exit(3); }
        err = memfd_create("err", 0);
    }
    std::string errors()
    {
        std::string s(20000, 0);
        auto n = pread(err, s.data(), s.size(), 0);
        s.resize(n > 0 ? n : 0);
        return s;
    }

    Out run(Case const& c, bool want_logs)
    {
        Out o;
        box->done = 0;
        box->len = 0;
        if (ftruncate(err, 0)) {}
        lseek(err, 0, SEEK_SET);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(3); }
        if (pid == 0)
        {
            dup2(err, 2);
            int nul = open("/dev/null", O_RDWR);
            dup2(nul, 0);
            dup2(nul, 1);
            rlimit rl{static_cast<rlim_t>(cpu_limit), static_cast<rlim_t>(cpu_limit + 1)};
            setrlimit(RLIMIT_CPU, &rl);
            rlimit core{0, 0};
            setrlimit(RLIMIT_CORE, &core);
            if (!sanitized)
            {
                rlimit as{3ull << 30, 3ull << 30};
                setrlimit(RLIMIT_AS, &as);
            }
            Result r;
            Logs logs;
            exec_case(c, r, logs);
            std::string s;
            put(s, r.cls); put(s, r.detail.substr(0, 4000)); putn(s, r.hash); putn(s, r.shape); putn(s, r.nontrivial); putn(s, r.steps);
            put(s, r.sample.substr(0, 2000));
            putn(s, r.st.c.size());
            for (auto& [k, v] : r.st.c) { put(s, k); putn(s, v); }
            if (want_logs || !r.cls.empty())
            {
                putn(s, logs.size());
                for (auto& l : logs) { putn(s, l.size()); for (auto v : l) putn(s, v); }
            }
            else putn(s, 0);
            if (s.size() < sizeof box->data)
            {
                memcpy(box->data, s.data(), s.size());
                box->len = s.size();
                box->done = 1;
            }
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (box->done)
        {
            Get g{box->data, box->data + box->len};
            o.r.cls = g.s(); o.r.detail = g.s(); o.r.hash = g.n(); o.r.shape = g.n(); o.r.nontrivial = g.n(); o.r.steps = g.n();
            o.r.sample = g.s();
            size_t k = g.n();
            for (size_t i = 0; i < k; ++i) { std::string key = g.s(); o.r.st[key] = g.n(); }
            k = g.n();
            for (size_t i = 0; i < k; ++i) { std::vector<uint32_t> v(g.n()); for (auto& x : v) x = g.n(); o.logs.push_back(v); }
            return o;
        }
        std::string e = errors();
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))
        {
            o.r.cls = "hang";
            o.r.detail = "the run did not end within its CPU limit";
            static char const* own[] = {"C09", "C13", "C14", "C15", "C18"};
            o.undecided = WTERMSIG(st) == SIGKILL || std::none_of(std::begin(own), std::end(own), [&](auto p) { return c.prop == p; });
            return o;
        }
        if (e.find("Cannot allocate memory") != std::string::npos || e.find("std::bad_alloc") != std::string::npos)
        {
            o.r.cls = "oom";
            o.undecided = c.prop != "C15";
        }
        std::string what = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
        if (auto a = e.find("Assertion `"); a != std::string::npos)
        {
            auto b = e.find("' failed", a);
            auto ls = e.rfind('\n', a);
            std::string line = e.substr(ls == std::string::npos ? 0 : ls + 1, a - (ls == std::string::npos ? 0 : ls + 1));
            std::string file;
            if (auto sl = line.rfind('/', line.find(".h:") != std::string::npos ? line.find(".h:") : line.find(".cpp:")); sl != std::string::npos)
                file = line.substr(sl + 1, line.find(':', sl) - sl - 1);
            what = "assertion " + e.substr(a + 11, b == std::string::npos ? 60 : b - a - 11) + " in " + file;
        }
        else if (auto t = e.find("what():"); t != std::string::npos) what = "uncaught exception: " + e.substr(t + 8, e.find('\n', t) - t - 8);
        else if (auto s = e.find("SUMMARY: "); s != std::string::npos)
        {
            // sanitizer: kind only
            std::string l = e.substr(s + 9, e.find('\n', s) - s - 9);
            std::istringstream is(l);
            std::string a1, a2;
            is >> a1 >> a2;
            what = a1 + " " + a2;
        }
        else if (auto s = e.find("runtime error: "); s != std::string::npos) what = "undefined behaviour: " + e.substr(s + 15, e.find('\n', s) - s - 15);
        if (!o.undecided) o.r.cls = "crash: " + what;
        o.r.detail = "the run crashed: " + what + " | " + e.substr(0, 1500);
        return o;
    }
};

// ------------------------------------------------------------------ known findings

struct Known { std::string prop, cls, contains, what; };
std::vector<Known> read_known(std::string const& path)
{
    // known: property=ID class="..." contains="..." what="..."
    std::vector<Known> v;
    std::ifstream in(path);
    std::string l;
    auto field = [&](std::string const& k) {
        auto p = l.find(" " + k + "=\"");
        if (p == std::string::npos) return std::string();
        p += k.size() + 3;
        return l.substr(p, l.find('"', p) - p);
    };
    while (std::getline(in, l))
    {
        if (l.compare(0, 16, "known: property=") != 0) continue;
        Known k;
        k.prop = l.substr(16, l.find(' ', 16) - 16);
        k.cls = field("class");
        k.contains = field("contains");
        k.what = field("what");
        v.push_back(k);
    }
    return v;
}

// ------------------------------------------------------------------ minimisation

struct Shrinker {
    Lane& lane;
    Case best;
    Out best_out;
    std::string cls;
    double deadline;
    int tries = 0;
    bool attempt(Case const& c)
    {
        if (now() > deadline) return false;
        ++tries;
        Out o = lane.run(c, false);
        if (o.undecided || o.r.cls != cls) return false;
        best = c;
        best_out = o;
        return true;
    }
    // remove chunks from a list of n items; make(kept) builds the case
    template <class F> bool ddmin(size_t n, F make)
    {
        bool any = false;
        std::vector<size_t> keep(n);
        for (size_t i = 0; i < n; ++i) keep[i] = i;
        for (size_t chunk = std::max<size_t>(1, n / 2); chunk >= 1; chunk /= 2)
        {
            for (size_t i = 0; i < keep.size() && now() < deadline;)
            {
                std::vector<size_t> k(keep.begin(), keep.begin() + i);
                k.insert(k.end(), keep.begin() + std::min(keep.size(), i + chunk), keep.end());
                if (k.size() < keep.size() && attempt(make(k))) { keep = k; any = true; }
                else i += chunk;
            }
            if (chunk == 1) break;
        }
        return any;
    }
    bool choices()
    {
        bool any = false;
        for (size_t s = 0; s < best.choices.size(); ++s)
        {
            // shorten
            auto base = best.choices[s];
            size_t last = base.size();
            while (last > 0 && base[last - 1] == 0) --last;
            base.resize(last);
            std::vector<size_t> set;
            for (size_t i = 0; i < base.size(); ++i) if (base[i]) set.push_back(i);
            if (!set.empty())
                any |= ddmin(set.size(), [&, base, set](std::vector<size_t> const& keep) {
                    Case c = best;
                    std::vector<uint32_t> v(base.size(), 0);
                    for (size_t k : keep) v[set[k]] = base[set[k]];
                    while (!v.empty() && v.back() == 0) v.pop_back();
                    c.choices[s] = v;
                    return c;
                });
            else if (last < best.choices[s].size()) { Case c = best; c.choices[s] = base; attempt(c); }
        }
        return any;
    }
    bool config()
    {
        bool any = false;
        auto keys = best.cfg;
        for (auto& [k, v] : keys)
        {
            if (k == "inv" || k.find("limit") != std::string::npos || k == "uf") continue;
            long def = k == "intrude" || k == "all_conflicts" ? 1 : 0;
            if (k.find('.') != std::string::npos && (k.ends_with("intrude") || k.ends_with("all_conflicts"))) def = 1;
            if (v == def || k == "hostile" || k.ends_with(".hostile")) continue;
            Case c = best;
            c.cfg[k] = def;
            any |= attempt(c);
        }
        return any;
    }
    static void subterms(P const& t, std::vector<std::vector<int>>& paths, std::vector<int>& cur)
    {
        paths.push_back(cur);
        for (size_t i = 0; i < t->kids.size(); ++i) { cur.push_back(i); subterms(t->kids[i], paths, cur); cur.pop_back(); }
    }
    static P replace(P const& t, std::vector<int> const& path, size_t d, P const& by)
    {
        if (d == path.size()) return by;
        auto n = std::make_shared<Node>(*t);
        n->kids[path[d]] = replace(t->kids[path[d]], path, d + 1, by);
        return n;
    }
    static P at(P t, std::vector<int> const& path) { for (int i : path) t = t->kids[i]; return t; }
    bool script(std::string const& key)
    {
        bool any = false;
        Script s;
        try { s = parse_script(best.text[key]); }
        catch (std::exception&) { return false; }
        any |= ddmin(s.cmds.size(), [&, s](std::vector<size_t> const& keep) {
            Case c = best;
            Script t;
            for (size_t k : keep) t.cmds.push_back(s.cmds[k]);
            c.text[key] = t.text();
            return c;
        });
        // terms
        for (size_t ci = 0; now() < deadline; ++ci)
        {
            try { s = parse_script(best.text[key]); } catch (std::exception&) { return any; }
            if (ci >= s.cmds.size()) break;
            for (bool again = true; again && now() < deadline;)
            {
                again = false;
                auto& cmd = s.cmds[ci];
                P root = cmd.kind == C_ASSERT ? cmd.term : cmd.kind == C_DEFINE ? cmd.fun.body : P();
                if (!root) break;
                std::vector<std::vector<int>> paths;
                std::vector<int> cur;
                subterms(root, paths, cur);
                for (auto& p : paths)
                {
                    P t = at(root, p);
                    std::vector<P> cand;
                    for (auto& k : t->kids) if (k->sort == t->sort) cand.push_back(k);
                    if (t->op == OR || t->op == AND || t->op == ADD)
                        for (size_t i = 0; i < t->kids.size() && t->kids.size() > 2; ++i)
                        {
                            auto n = std::make_shared<Node>(*t);
                            n->kids.erase(n->kids.begin() + i);
                            cand.push_back(n);
                        }
                    if (t->op != TRUE_ && t->op != FALSE_ && t->sort == BOOL && !t->kids.empty()) { cand.push_back(mk_true()); cand.push_back(mk_false()); }
                    if (t->sort == REAL && !t->kids.empty()) { cand.push_back(mk_num(0)); cand.push_back(mk_num(1)); }
                    for (auto& k : cand)
                    {
                        Script n = s;
                        P nr = replace(root, p, 0, k);
                        if (cmd.kind == C_ASSERT) n.cmds[ci].term = nr; else n.cmds[ci].fun.body = nr;
                        Case c = best;
                        c.text[key] = n.text();
                        if (c.text[key].size() >= best.text[key].size()) continue;
                        if (attempt(c)) { s = n; again = any = true; break; }
                        if (now() > deadline) return any;
                    }
                    if (again) break;
                }
            }
        }
        return any;
    }
    bool lines(std::string const& key, bool cnf)
    {
        std::vector<std::string> l;
        std::istringstream in(best.text[key]);
        std::string x;
        while (std::getline(in, x)) l.push_back(x);
        std::string head;
        if (cnf && !l.empty()) { head = l[0]; l.erase(l.begin()); }
        auto build = [&](std::vector<std::string> const& k) {
            Case c = best;
            std::string t;
            if (cnf)
            {
                std::istringstream h(head);
                std::string w; long v = 0;
                h >> w >> w >> v;
                t = "p cnf " + std::to_string(v) + " " + std::to_string(k.size()) + "\n";
            }
            for (auto& s : k) t += s + "\n";
            c.text[key] = t;
            return c;
        };
        bool any = ddmin(l.size(), [&](std::vector<size_t> const& keep) {
            std::vector<std::string> k;
            for (size_t i : keep) k.push_back(l[i]);
            return build(k);
        });
        return any;
    }
    void go()
    {
        for (int round = 0; round < 4 && now() < deadline; ++round)
        {
            bool any = choices();
            any |= config();
            for (auto& [k, v] : std::map<std::string, std::string>(best.text))
            {
                char kind = text_kind(k);
                if (kind == 's') any |= script(k);
                if (kind == 'c') any |= lines(k, true);
                if (kind == 'l') any |= lines(k, false);
            }
            if (!any) break;
        }
    }
};

std::string esc(std::string const& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

// ------------------------------------------------------------------ the check

struct Totals { // collected from the workers through pipes
    uint64_t runs = 0, nontrivial = 0, undecided = 0, steps = 0, rechecks = 0, recheck_diff = 0;
    std::map<std::string, uint64_t> st;
    std::unordered_set<uint64_t> shapes;
};

struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
};

int check(int argc, char** argv)
{
    std::string prop = argv[2], out_path, known_path, replay_dir = "replays", corpus;
    uint64_t seed = 1;
    double seconds = 30;
    uint64_t max_runs = 1ull << 40;
    int workers = 8;
    bool thorough = false;
    std::string real, stub, rule;
    for (int i = 3; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--seconds") seconds = atof(v.c_str());
        else if (k == "--runs") max_runs = strtoull(v.c_str(), 0, 10);
        else if (k == "--workers") workers = atoi(v.c_str());
        else if (k == "--tier") thorough = v == "thorough";
        else if (k == "--out") out_path = v;
        else if (k == "--known") known_path = v;
        else if (k == "--replays") replay_dir = v;
        else if (k == "--corpus") corpus = v;
        else if (k == "--real") real = v;
        else if (k == "--stub") stub = v;
        else if (k == "--rule") rule = v;
    }
    auto known = read_known(known_path);
    mkdir(replay_dir.c_str(), 0777);
    double t0 = now();
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (sh) Shared{};

    // cases kept from earlier findings
    std::vector<Case> kept;
    if (!corpus.empty())
    {
        std::ifstream list(corpus);
        std::string f;
        std::string dir = corpus.substr(0, corpus.rfind('/') + 1);
        while (std::getline(list, f))
        {
            if (f.empty() || f[0] == '#') continue;
            std::ifstream in(dir + f);
            Case c; std::string cls; uint64_t h;
            if (read_case(in, c, cls, h)) { if (c.prop == prop) kept.push_back(c); }
            else { fprintf(stderr, "cannot read %s\n", f.c_str()); return 3; }
        }
    }
    struct Failure { uint64_t idx; bool corpus; std::string cls, detail; };
    std::vector<Failure> failures;
    std::map<std::string, uint64_t> known_hits;
    Totals tot;
    std::vector<std::string> samples;

    std::vector<int> fds;
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; ++w)
    {
        int p[2];
        if (pipe(p)) return 3;
        pid_t pid = fork();
        if (pid == 0)
        {
            close(p[0]);
            Lane lane;
            Totals t;
            std::string msg;
            auto is_known = [&](Result const& r) {
                for (size_t i = 0; i < known.size(); ++i)
                    if (known[i].prop == prop && known[i].cls == r.cls && r.detail.find(known[i].contains) != std::string::npos) return static_cast<int>(i);
                return -1;
            };
            auto account = [&](Case const& c, uint64_t idx, bool corp) {
                Out o = lane.run(c, false);
                ++t.runs;
                t.steps += o.r.steps;
                for (auto& [k, v] : o.r.st.c)
                    if (k.compare(0, 4, "max_") == 0) t.st[k] = std::max(t.st[k], v);
                    else t.st[k] += v;
                if (o.undecided) { ++t.undecided; return o; }
                bool fresh = t.shapes.insert(o.r.shape).second;
                if (o.r.nontrivial && fresh) ++t.nontrivial;
                if (!o.r.cls.empty())
                {
                    int k = is_known(o.r);
                    if (k >= 0) { msg += "K"; putn(msg, k); }
                    else
                    {
                        msg += "F"; putn(msg, idx); putn(msg, corp); put(msg, o.r.cls); put(msg, o.r.detail);
                        ++sh->stop;
                    }
                }
                else if (o.r.nontrivial && (msg.size() < 3000) && idx % 5 == 0 && t.runs < 40) { msg += "S"; put(msg, o.r.sample.substr(0, 700)); }
                return o;
            };
            for (size_t i = w; i < kept.size(); i += workers) account(kept[i], i, true);
            for (;;)
            {
                if (now() - t0 > seconds || sh->stop >= 6) break;
                uint64_t i = sh->next++;
                if (i >= max_runs) break;
                Case c = make_case(prop, mix(seed, i), thorough);
                Out o = account(c, i, false);
                if (i % 50 == 7 && o.r.cls.empty())
                {
                    Out o2 = lane.run(c, false);
                    ++t.rechecks;
                    if (o2.r.hash != o.r.hash || o2.r.cls != o.r.cls)
                    {
                        ++t.recheck_diff;
                        fprintf(stderr, "not repeatable: %s run %llu\n", prop.c_str(), (unsigned long long)i);
                    }
                }
            }
            msg += "T";
            putn(msg, t.runs); putn(msg, t.undecided); putn(msg, t.steps); putn(msg, t.rechecks); putn(msg, t.recheck_diff); putn(msg, t.nontrivial);
            putn(msg, t.st.size());
            for (auto& [k, v] : t.st) { put(msg, k); putn(msg, v); }
            putn(msg, t.shapes.size());
            for (auto h : t.shapes) putn(msg, h);
            size_t off = 0;
            while (off < msg.size())
            {
                auto n = write(p[1], msg.data() + off, msg.size() - off);
                if (n <= 0) break;
                off += n;
            }
            _exit(0);
        }
        close(p[1]);
        fds.push_back(p[0]);
        pids.push_back(pid);
    }
    bool broken = false;
    for (int w = 0; w < workers; ++w)
    {
        std::string m;
        char buf[65536];
        ssize_t n;
        while ((n = read(fds[w], buf, sizeof buf)) > 0) m.append(buf, n);
        int st;
        waitpid(pids[w], &st, 0);
        bool ended = false;
        Get g{m.data(), m.data() + m.size()};
        while (g.p < g.e)
        {
            char k = *g.p++;
            if (k == 'F') { Failure f; f.idx = g.n(); f.corpus = g.n(); f.cls = g.s(); f.detail = g.s(); failures.push_back(f); }
            else if (k == 'K') { auto& kn = known[g.n()]; ++known_hits[kn.what]; }
            else if (k == 'S') { std::string s = g.s(); if (samples.size() < 3) samples.push_back(s); }
            else if (k == 'T')
            {
                ended = true;
                tot.runs += g.n(); tot.undecided += g.n(); tot.steps += g.n(); tot.rechecks += g.n(); tot.recheck_diff += g.n();
                tot.nontrivial += g.n();
                size_t c = g.n();
                for (size_t i = 0; i < c; ++i)
                {
                    std::string key = g.s(); uint64_t v = g.n();
                    if (key.compare(0, 4, "max_") == 0) tot.st[key] = std::max(tot.st[key], v);
                    else tot.st[key] += v;
                }
                c = g.n();
                for (size_t i = 0; i < c; ++i) tot.shapes.insert(g.n());
            }
            else break;
        }
        if (!ended) broken = true;
    }
    double searched = now() - t0;
    // distinct non-trivial over all workers is at most the number of distinct shapes
    tot.nontrivial = std::min<uint64_t>(tot.nontrivial, tot.shapes.size());

    if (!out_path.empty())
    {
        std::ofstream o(out_path);
        o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"wall_s\": " << now() << ",\n \"coverage\": {\n";
        o << "  \"evaluations\": " << tot.runs << ",\n  \"distinct_nontrivial\": " << tot.nontrivial << ",\n";
        o << "  \"rule\": \"" << esc(rule) << "\",\n  \"samples\": [";
        if (samples.empty()) samples.push_back("(no sample: " + std::to_string(tot.runs) + " runs)");
        for (size_t i = 0; i < samples.size(); ++i) o << (i ? ", " : "") << "\"" << esc(samples[i]) << "\"";
        o << "],\n  \"simulated_runs\": " << tot.runs << ",\n  \"seeds_per_hour\": " << static_cast<uint64_t>(tot.runs / std::max(0.001, searched) * 3600)
          << ",\n  \"simulated_steps\": " << tot.steps << ",\n  \"distinct_histories\": " << tot.shapes.size()
          << ",\n  \"undecided_runs\": " << tot.undecided << ",\n  \"repeat_runs\": " << tot.rechecks << ",\n  \"repeat_runs_that_differed\": " << tot.recheck_diff
          << ",\n  \"corpus_cases\": " << kept.size() << ",\n  \"faults_injected\": {";
        bool first = true;
        for (auto& [k, v] : tot.st) if (k.compare(0, 6, "fault.") == 0) { o << (first ? "" : ", ") << "\"" << esc(k.substr(6)) << "\": " << v; first = false; }
        o << "},\n  \"counters\": {";
        first = true;
        for (auto& [k, v] : tot.st) if (k.compare(0, 6, "fault.") != 0) { o << (first ? "" : ", ") << "\"" << esc(k) << "\": " << v; first = false; }
        o << "},\n  \"real_components\": \"" << esc(real) << "\",\n  \"simulated_components\": \"" << esc(stub) << "\",\n  \"sanitizers\": "
          << (sanitized ? "\"address, undefined\"" : "\"none (assertions on)\"") << ",\n  \"violations\": " << failures.size() << ",\n  \"known_findings_seen\": " << known_hits.size() << "\n }\n}\n";
    }
    for (auto& k : known)
        if (k.prop == prop && known_hits.count(k.what)) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.what.c_str());
    printf("%s: %llu runs in %.1f s, %zu distinct histories, %llu steps, %llu undecided, %zu violations\n", prop.c_str(), (unsigned long long)tot.runs, searched,
        tot.shapes.size(), (unsigned long long)tot.steps, (unsigned long long)tot.undecided, failures.size());
    fflush(stdout);
    if (failures.empty())
    {
        if (broken) { fprintf(stderr, "a worker died\n"); return 3; }
        if (tot.runs == 0) { fprintf(stderr, "no run was made\n"); return 3; }
        return 0;
    }

    // gate, minimise and report
    Lane lane;
    std::vector<std::pair<Case, Out>> shaky; // fails, but not in the same way every time
    std::sort(failures.begin(), failures.end(), [](auto& a, auto& b) { return std::pair(!a.corpus, a.idx) < std::pair(!b.corpus, b.idx); });
    for (auto& f : failures)
    {
        Case c = f.corpus ? kept[f.idx] : make_case(prop, mix(seed, f.idx), thorough);
        Out a = lane.run(c, true), b = lane.run(c, true);
        if (a.undecided || a.r.cls.empty() || a.r.cls != b.r.cls || a.r.hash != b.r.hash)
        {
            fprintf(stderr, "run %llu (%s: %s) is not repeatable\n", (unsigned long long)f.idx, f.cls.c_str(), f.detail.substr(0, 300).c_str());
            // the same schedule with different outcomes: the code under test uses memory it does not own
            int fails = 0;
            Out last = a;
            for (int i = 0; i < 8 && shaky.size() < 2; ++i)
            {
                Out o = lane.run(c, true);
                if (o.undecided || o.r.cls.empty()) continue;
                ++fails;
                last = o;
            }
            if (fails >= 4) shaky.push_back({c, last});
            continue;
        }
        Shrinker s{lane, c, a, a.r.cls, now() + 45};
        // replay the recorded choices instead of the generator
        if (!a.logs.empty())
        {
            Case rc = c;
            rc.choices = a.logs;
            rc.replay = true;
            if (!s.attempt(rc)) fprintf(stderr, "recorded choices do not reproduce; keeping the generator\n");
        }
        if (s.best.replay || s.best.choices.empty()) s.go();
        std::string path = replay_dir + "/" + prop + "-" + std::to_string(seed) + "-" + (f.corpus ? "kept" : "") + std::to_string(f.idx) + ".replay";
        s.best.replay = true;
        Out fin = lane.run(s.best, false);
        if (fin.r.cls != s.cls) { fprintf(stderr, "minimised case does not reproduce\n"); s.best = c; fin = a; s.best.choices = a.logs; s.best.replay = true; }
        {
            std::ofstream o(path);
            write_case(o, s.best, &fin.r);
        }
        // a fresh process must fail the same way
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            int nul = open("/dev/null", O_RDWR);
            dup2(nul, 1);
            execl("/proc/self/exe", "simyaga", "replay", path.c_str(), static_cast<char*>(nullptr));
            _exit(9);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "replay of %s in a fresh process does not reproduce\n", path.c_str()); if (shaky.size() < 2) shaky.push_back({c, a}); continue; }
        printf("seed %llu run %llu: %s: %s\n", (unsigned long long)seed, (unsigned long long)f.idx, fin.r.cls.c_str(), fin.r.detail.substr(0, 1200).c_str());
        for (auto& [k, v] : s.best.text) printf("--- %s\n%s\n", k.c_str(), v.substr(0, 3000).c_str());
        printf("(minimised in %d runs)\n", s.tries);
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
        return 1;
    }
    for (auto& [c, o] : shaky)
    {
        std::string path = replay_dir + "/" + prop + "-" + std::to_string(seed) + "-shaky.replay";
        if (!o.logs.empty()) { c.choices = o.logs; c.replay = true; }
        std::ofstream f(path);
        write_case(f, c, &o.r);
        printf("the same schedule fails in different ways from run to run: %s: %s\n", o.r.cls.c_str(), o.r.detail.substr(0, 1200).c_str());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
        return 1;
    }
    fprintf(stderr, "no failure could be reproduced\n");
    return 3;
}

int replay(int argc, char** argv)
{
    std::ifstream in(argv[2]);
    Case c;
    std::string cls;
    uint64_t hash = 0;
    if (!read_case(in, c, cls, hash)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
    (void)argc;
    Lane lane;
    Out o = lane.run(c, false);
    printf("expected: %s\nobserved: %s\n%s\n", cls.c_str(), o.r.cls.empty() ? "(the property held)" : o.r.cls.c_str(), o.r.detail.c_str());
    bool same = o.r.cls == cls && (hash == 0 || o.r.cls.compare(0, 5, "crash") == 0 || o.r.hash == hash);
    if (o.r.cls == cls && !same) printf("the event history differs from the recorded one\n");
    return same && !cls.empty() ? 1 : o.r.cls.empty() ? 0 : 2;
}

int run_one(int argc, char** argv)
{
    uint64_t seed = strtoull(argv[3], 0, 10), idx = strtoull(argv[4], 0, 10);
    bool thorough = argc > 5 && std::string(argv[5]) == "thorough";
    Case c = make_case(argv[2], mix(seed, idx), thorough);
    for (auto& [k, v] : c.cfg) printf("%s=%ld ", k.c_str(), v);
    for (auto& [k, v] : c.text) printf("\n--- %s\n%s", k.c_str(), v.c_str());
    Lane lane;
    Out o = lane.run(c, true);
    printf("\n=> class '%s' %s\nhash %llu steps %llu\n", o.r.cls.c_str(), o.r.detail.c_str(), (unsigned long long)o.r.hash, (unsigned long long)o.r.steps);
    for (auto& [k, v] : o.r.st.c) printf("%s=%llu ", k.c_str(), (unsigned long long)v);
    printf("\n");
    return 0;
}

// minimise one run, for use while working on a check
int shrink_one(int argc, char** argv)
{
    Case c = make_case(argv[2], mix(strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10)), false);
    Lane lane;
    Out a = lane.run(c, true);
    Shrinker s{lane, c, a, a.r.cls, now() + 30};
    if (!a.logs.empty())
    {
        Case rc = c;
        rc.choices = a.logs;
        rc.replay = true;
        s.attempt(rc);
    }
    if (!a.r.cls.empty()) s.go();
    for (auto& [k, v] : s.best.cfg) printf("%s=%ld ", k.c_str(), v);
    for (auto& [k, v] : s.best.text) printf("\n--- %s\n%s", k.c_str(), v.c_str());
    printf("\n=> class '%s' %s\n", s.best_out.r.cls.c_str(), s.best_out.r.detail.c_str());
    if (argc > 5) { std::ofstream o(argv[5]); s.best.replay = true; write_case(o, s.best, &s.best_out.r); }
    return 0;
}

// write generated scripts (or clause sets) and the reference's answers to files, for use elsewhere
int dump(int argc, char** argv)
{
    std::string prop = argv[2], dir = argc > 5 ? argv[5] : ".";
    uint64_t seed = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10);
    for (uint64_t i = 0; i < n; ++i)
    {
        Case c = make_case(prop, mix(seed, i), argc > 6);
        for (auto& [k, v] : c.text)
        {
            std::string base = dir + "/" + std::to_string(i);
            if (k == "script")
            {
                std::ofstream(base + ".smt2") << v;
                std::ofstream o(base + ".exp");
                for (int t : script_truths(v)) o << (t < 0 ? "?" : t ? "sat" : "unsat") << "\n";
            }
            if (k == "cnf")
            {
                std::ofstream(base + ".cnf") << v;
                std::ofstream(base + ".exp") << (cnf_text_truth(v) ? "SAT" : "UNSAT") << "\n";
            }
        }
    }
    return 0;
}

// many seeds: how often does each class of violation occur?
int survey(int argc, char** argv)
{
    (void)argc;
    std::string prop = argv[2];
    uint64_t seed = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10);
    int W = 8;
    std::vector<FILE*> fs;
    for (int w = 0; w < W; ++w)
    {
        FILE* f = tmpfile();
        fs.push_back(f);
        if (fork() == 0)
        {
            Lane lane;
            for (uint64_t i = w; i < n; i += W)
            {
                double b = now();
                Out o = lane.run(make_case(prop, mix(seed, i), argc > 5), false);
                double d = now() - b;
                if (!o.r.cls.empty()) fprintf(f, "%s\t%llu\t%s\n", (o.undecided ? "(undecided) " + o.r.cls : o.r.cls).c_str(), (unsigned long long)i, o.r.detail.substr(0, 200).c_str());
                if (d > 2) fprintf(f, "(slow)\t%llu\t%.1f s\n", (unsigned long long)i, d);
            }
            fclose(f);
            _exit(0);
        }
    }
    while (wait(nullptr) > 0) {}
    std::map<std::string, std::pair<int, std::string>> m;
    for (auto* f : fs)
    {
        rewind(f);
        char b[8192];
        while (fgets(b, sizeof b, f))
        {
            std::string l = b;
            auto t = l.find('\t');
            if (t == std::string::npos) continue;
            auto& e = m[l.substr(0, t)];
            if (!e.first++) e.second = l.substr(t + 1);
        }
    }
    for (auto& [k, v] : m) printf("%6d %s | e.g. %s", v.first, k.c_str(), v.second.c_str());
    printf("%llu runs, %.1f s\n", (unsigned long long)n, now());
    return 0;
}

} // namespace

int main(int argc, char** argv)
{
    now();
    signal(SIGPIPE, SIG_IGN);
    if (sanitized) cpu_limit = 60;
    std::string m = argc > 1 ? argv[1] : "";
    if (m == "check" && argc > 2) return check(argc, argv);
    if (m == "replay" && argc > 2) return replay(argc, argv);
    if (m == "run" && argc > 4) return run_one(argc, argv);
    if (m == "shrink" && argc > 4) return shrink_one(argc, argv);
    if (m == "dump" && argc > 4) return dump(argc, argv);
    if (m == "survey" && argc > 4) return survey(argc, argv);
    fprintf(stderr, "usage: simyaga check PROP [options] | replay FILE | run PROP SEED INDEX | survey PROP SEED N\n");
    return 3;
}
