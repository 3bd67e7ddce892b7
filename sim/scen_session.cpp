// C10, C15, C16: several sessions in one process. C16 interleaves them on fibers under the seeded
// scheduler; C10 repeats one session in other surroundings. Both compare with a run of the same
// session alone in a fresh process.
#include "alloc.hpp"
#include "scen.hpp"
#include "tool.hpp"
#include "Smt2_parser.h"
#include <iostream>
#include <malloc.h>
#include <streambuf>
#include <sys/mman.h>
#include <csignal>
#include <ucontext.h>
#include <unistd.h>

namespace sim {
namespace {

// ------------------------------------------------------------------ one session

struct Sess_out {
    std::string out, stats, error;
    bool limited = false, abandoned = false;
    uint64_t events = 0;
    long steps = 0, conflicts = 0, restarts = 0;
    std::vector<uint32_t> log;

    std::string pack() const
    {
        std::ostringstream o;
        auto s = [&](std::string const& t) { o << t.size() << ":" << t; };
        s(out); s(stats); s(error);
        o << limited << " " << abandoned << " " << events << " " << steps << " " << conflicts << " " << restarts << " " << log.size();
        for (auto v : log) o << " " << v;
        o << " end";
        return o.str();
    }
    bool unpack(std::string const& t)
    {
        std::istringstream i(t);
        auto s = [&](std::string& to) { size_t n = 0; char c; i >> n; i.get(c); to.resize(n); i.read(to.data(), n); };
        s(out); s(stats); s(error);
        size_t n = 0;
        i >> limited >> abandoned >> events >> steps >> conflicts >> restarts >> n;
        if (!i || n > 10000000) return false;
        log.resize(n);
        for (auto& v : log) i >> v;
        std::string e;
        i >> e;
        return e == "end";
    }
};

std::string differ(Sess_out const& a, Sess_out const& b) // a: alone
{
    if (a.error != b.error) return "ends with '" + b.error + "' instead of '" + a.error + "'";
    auto clip = [](std::string const& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; };
    if (a.out != b.out) return "prints " + clip(b.out) + " instead of " + clip(a.out);
    if (a.stats != b.stats) return "gives the statistics " + clip(b.stats) + " instead of " + clip(a.stats);
    if (a.limited != b.limited || a.steps != b.steps) return "takes " + std::to_string(b.steps) + " steps instead of " + std::to_string(a.steps);
    if (a.events != b.events) return "takes the same number of steps, but other ones";
    return "";
}

// the configuration of session i
Case member(Case const& c, int i)
{
    Case d = c;
    std::string p = "r" + std::to_string(i) + ".";
    for (auto& [key, v] : c.cfg)
        if (key.compare(0, p.size(), p) == 0) d.cfg[key.substr(p.size())] = v;
    return d;
}

// reads a text in pieces; before each piece the others may run
class Piece_buf : public std::streambuf {
public:
    Piece_buf(std::string const& t, int n, std::function<void()> y) : text(t), piece(n), yield(std::move(y)) {}
private:
    std::string const& text;
    size_t pos = 0;
    int piece;
    std::function<void()> yield;
    std::string area;
    int_type underflow() override
    {
        if (yield) yield();
        if (pos >= text.size()) return traits_type::eof();
        area = text.substr(pos, piece);
        pos += area.size();
        setg(area.data(), area.data(), area.data() + area.size());
        return traits_type::to_int_type(area[0]);
    }
};

Sess_out run_member(Case const& c, int i, Sched s, int piece, std::function<void()> const& on_read, std::function<void()> const& on_step)
{
    Case d = member(c, i);
    Sess_out o;
    Result dummy;
    Plug_cfg pc;
    pc.read_plug(d);
    Session ses(pc, std::move(s), dummy);
    ses.on_step = on_step;
    if (d.get("is_cnf"))
    {
        Cnf f = read_cnf(c.str("cnf." + std::to_string(i)));
        bool empty = false;
        for (auto& k : f.clauses) empty |= k.empty();
        if (!empty)
        {
            if (on_read) on_read();
            std::string bad;
            try
            {
                int got = search_cnf(d, f, ses, bad, &o.out);
                o.out = (got ? "sat " : "unsat ") + o.out + bad;
            }
            catch (Abandon&) { o.abandoned = true; }
            catch (Limit&) { o.limited = true; }
            catch (std::exception& e) { o.error = std::string("error: ") + e.what(); }
            yaga::sim::hooks = nullptr;
        }
    }
    else
    {
        Piece_buf b(c.str("script." + std::to_string(i)), piece, on_read);
        std::istream in(&b);
        Run_out ro = run_script(in, read_options(d), &ses);
        o.out = ro.out; o.stats = ro.stats; o.error = ro.error; o.limited = ro.limited; o.abandoned = ro.abandoned;
    }
    o.events = ses.events.h;
    o.steps = ses.steps;
    o.conflicts = ses.conflicts;
    o.restarts = ses.restarts;
    o.log = ses.sched.log;
    return o;
}

// a run of body in a fresh process; false if it crashed
bool elsewhere(Result& r, std::string const& what, Sess_out& o, std::function<Sess_out()> const& body)
{
    auto t = run_child([&] {
        std::string s = body().pack();
        alloc.perturb = false;
        size_t at = 0;
        while (at < s.size())
        {
            auto k = write(1, s.data() + at, s.size() - at);
            if (k <= 0) _exit(3);
            at += k;
        }
        _exit(0);
        return 0;
    });
    if (t.sig || t.code != 0)
    {
        r.fail("crash", what + " ends by signal " + std::to_string(t.sig) + ": " + t.err.substr(0, 400));
        return false;
    }
    if (!o.unpack(t.out)) { r.fail("harness", "unreadable result of " + what); return false; }
    return true;
}

// ------------------------------------------------------------------ fibers

class Fibers {
public:
    explicit Fibers(Sched& s) : sched(s) {}
    int permille = 100;
    uint64_t switches = 0;

    int add(std::function<void()> body)
    {
        auto f = std::make_unique<Fiber>();
        f->body = std::move(body);
        f->stack = mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (f->stack == MAP_FAILED) { perror("mmap"); _exit(3); }
        f->owner = this;
        f->cout = std::cout.rdbuf();
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack;
        f->ctx.uc_stack.ss_size = stack_size;
        f->ctx.uc_link = &home;
        auto p = reinterpret_cast<uintptr_t>(f.get());
        makecontext(&f->ctx, reinterpret_cast<void (*)()>(&Fibers::enter), 2, static_cast<unsigned>(p >> 32), static_cast<unsigned>(p));
        fibers.push_back(std::move(f));
        return static_cast<int>(fibers.size()) - 1;
    }
    void run()
    {
        auto* cout0 = std::cout.rdbuf();
        auto* hooks0 = yaga::sim::hooks;
        next = -1;
        for (;;)
        {
            if (next < 0 || fibers[next]->done)
            {
                std::vector<int> a = alive();
                if (a.empty()) break;
                next = a[sched.choose(K_SWITCH, static_cast<uint32_t>(a.size()), 500)];
            }
            cur = next;
            auto& f = *fibers[cur];
            std::cout.rdbuf(f.cout);
            yaga::sim::hooks = f.hooks;
            swapcontext(&home, &f.ctx);
            f.cout = std::cout.rdbuf();
            f.hooks = yaga::sim::hooks;
        }
        std::cout.rdbuf(cout0);
        yaga::sim::hooks = hooks0;
        for (auto& f : fibers) munmap(f->stack, stack_size);
        fibers.clear();
    }
    // called from within a fiber: another one may go on now
    void yield()
    {
        std::vector<int> a = alive();
        uint32_t v = sched.choose(K_SWITCH, static_cast<uint32_t>(a.size()), permille);
        if (!v) return;
        std::vector<int> others;
        for (int i : a) if (i != cur) others.push_back(i);
        next = others[v - 1];
        ++switches;
        swapcontext(&fibers[cur]->ctx, &home);
    }

private:
    static constexpr size_t stack_size = 8u << 20;
    struct Fiber {
        ucontext_t ctx;
        void* stack = nullptr;
        bool done = false;
        std::function<void()> body;
        std::streambuf* cout = nullptr;
        yaga::sim::Hooks* hooks = nullptr;
        Fibers* owner = nullptr;
    };
    static void enter(unsigned hi, unsigned lo)
    {
        auto* f = reinterpret_cast<Fiber*>((static_cast<uintptr_t>(hi) << 32) | lo);
        f->body();
        f->done = true;
        // returns to home through uc_link
    }
    std::vector<int> alive() const
    {
        std::vector<int> a;
        for (size_t i = 0; i < fibers.size(); ++i)
            if (!fibers[i]->done) a.push_back(static_cast<int>(i));
        return a;
    }
    Sched& sched;
    ucontext_t home;
    std::vector<std::unique_ptr<Fiber>> fibers;
    int cur = -1, next = -1;
};

// ------------------------------------------------------------------ making sessions

void make_member(Case& c, int i, Rng& r, Rng& g, bool thorough, bool may_cnf)
{
    Case d;
    random_plug(d, r);
    random_options(d, r);
    d.cfg["intrude"] = !r.chance(1, 6);
    d.cfg["step_limit"] = 2000;
    d.cfg["stats"] = r.chance(1, 3);
    if (may_cnf && r.chance(1, 5))
    {
        d.cfg["is_cnf"] = 1;
        d.cfg["facade"] = r.chance(1, 3);
        c.text["cnf." + std::to_string(i)] = gen_cnf(g, r.chance(1, 3)).dimacs();
    }
    else
    {
        Script s = gen_smt(g, r.chance(1, 3), thorough ? r.below(2) : r.chance(1, 4), mix(c.seed, i) % 2 == 0, r.chance(1, 3));
        if (r.chance(1, 3))
        {
            // several checks
            Script t;
            for (auto& cmd : s.cmds)
            {
                t.cmds.push_back(cmd);
                if (cmd.kind == C_ASSERT && r.chance(1, 5)) Gen::add(t, C_CHECK);
            }
            s = t;
        }
        Gen::add(s, C_CHECK);
        Gen::add(s, C_MODEL);
        c.text["script." + std::to_string(i)] = s.text();
    }
    for (auto& [key, v] : d.cfg) c.cfg["r" + std::to_string(i) + "." + key] = v;
}

// fill what lies on the stack below with a pattern
__attribute__((noinline)) void dirty_stack(unsigned char v)
{
    volatile unsigned char a[200000];
    for (size_t i = 0; i < sizeof a; ++i) a[i] = v;
}

} // namespace

// ------------------------------------------------------------------ C16

Case make_overlap(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.scen = "overlap";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e));
    Rng g(mix(seed, 0x9e4));
    int n = 2 + r.below(thorough ? 4 : 2);
    c.cfg["sessions"] = n;
    for (int i = 0; i < n; ++i)
    {
        make_member(c, i, r, g, thorough, true);
        std::string p = "r" + std::to_string(i) + ".";
        static int const pieces[] = {1, 3, 17, 64, 1024};
        c.cfg[p + "piece"] = pieces[r.below(5)];
        c.cfg[p + "killed"] = r.chance(1, 8) ? 1 + r.below(60) : 0;
    }
    if (r.chance(1, 4) && c.text.count("script.0") && c.text.count("script.1")) c.text["script.1"] = c.text["script.0"]; // twins
    static int const lv[] = {10, 60, 300, 1000};
    c.cfg["p_switch"] = lv[r.below(4)];
    c.cfg["again"] = r.chance(1, 3);
    return c;
}

void exec_overlap(Case const& c, Result& r, Logs& logs)
{
    int n = c.get("sessions");
    std::vector<Sess_out> alone(n), with(n);
    for (int i = 0; i < n; ++i)
        if (!elsewhere(r, "session " + std::to_string(i) + " alone", alone[i], [&] { return run_member(c, i, c.sched(1 + i), 1024, nullptr, nullptr); })) return;
    Sched s = c.sched(0);
    Fibers fibers(s);
    fibers.permille = c.get("p_switch");
    std::vector<bool> killed(n);
    Hash h, shape;
    for (int i = 0; i < n; ++i)
        fibers.add([&, i] {
            std::string p = "r" + std::to_string(i) + ".";
            long kill = c.get(p + "killed"), k = 0;
            with[i] = run_member(c, i, c.sched(1 + i), std::max<long>(1, c.get(p + "piece")),
                [&] { fibers.yield(); },
                [&] {
                    if (kill && ++k == kill) { killed[i] = true; throw Abandon(); }
                    fibers.yield();
                });
        });
    // both runs of a session draw the same choices
    fibers.run();
    for (int i = 0; i < n; ++i)
    {
        auto &a = alone[i], &b = with[i];
        h.add(a.out); h.add(b.out); h.add(b.stats); h.add(b.events);
        shape.add(b.events);
        r.steps += a.steps + b.steps;
        if (a.conflicts) r.nontrivial = true;
        if (killed[i])
        {
            ++r.st["fault.session_killed"];
            if (b.out != a.out.substr(0, b.out.size())) r.fail("interference", "session " + std::to_string(i) + ", ended early, prints " + b.out.substr(0, 300) + " before");
            continue;
        }
        ++r.st["sessions_compared"];
        std::string w = differ(a, b);
        if (!w.empty()) r.fail("interference", "session " + std::to_string(i) + " of " + std::to_string(n) + " " + w + " when it is alone in its process");
    }
    if (c.get("again") && r.cls.empty())
    {
        ++r.st["sessions_compared"];
        auto o = run_member(c, 0, c.sched(1), 4096, nullptr, nullptr);
        std::string w = differ(alone[0], o);
        if (!w.empty()) r.fail("interference", "session 0, run again after the others, " + w);
    }
    r.st["fault.session_switch"] += fibers.switches;
    shape.add(fibers.switches);
    r.hash = mix(h.h, fibers.switches);
    r.shape = shape.h;
    if (!fibers.switches) r.nontrivial = false;
    for (auto& [k, v] : c.text) r.sample += k + ":\n" + v.substr(0, 500) + "\n";
    logs.push_back(s.log);
    for (auto& a : alone) logs.push_back(a.log);
}

// ------------------------------------------------------------------ C10

Case make_repeat(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.scen = "repeat";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e));
    Rng g(mix(seed, 0x9e4));
    int n = 1 + r.below(3); // 0: the session observed, others: what the process did before
    c.cfg["sessions"] = n;
    for (int i = 0; i < n; ++i)
    {
        make_member(c, i, r, g, thorough, true);
        if (i) c.cfg["r" + std::to_string(i) + ".killed"] = r.chance(1, 3) ? 1 + r.below(60) : 0;
    }
    c.cfg["r0.stats"] = 1;
    c.cfg["repeats"] = thorough ? 6 : 3;
    return c;
}

void exec_repeat(Case const& c, Result& r, Logs& logs)
{
    int n = c.get("sessions");
    Sess_out base;
    Hash h, shape;
    if (!elsewhere(r, "the run", base, [&] { return run_member(c, 0, c.sched(0), 1024, nullptr, nullptr); })) return;
    logs.push_back(base.log);
    Sched s = c.sched(1);
    h.add(base.out); h.add(base.stats); h.add(base.events);
    shape.add(base.events);
    r.nontrivial = base.conflicts > 0;
    for (int k = 0; k < c.get("repeats"); ++k)
    {
        uint32_t layout = s.choose(K_FAULT, 1000000, 700), fill = s.choose(K_FAULT, 256, 700), before = s.choose(K_OP, 4, 600), twice = s.choose(K_OP, 3, 200);
        uint32_t piece = s.choose(K_READ, 64, 300);
        Sess_out o;
        std::string what = "repetition " + std::to_string(k + 1) + " (heap layout " + std::to_string(layout) + ", memory filled with " + std::to_string(fill) + ", " +
            std::to_string(before) + " sessions before)";
        if (!elsewhere(r, what, o, [&] {
                if (layout) { alloc.perturb = true; alloc.state = 0x9e3779b97f4a7c15ull * layout; }
                if (fill) { mallopt(M_PERTURB, static_cast<int>(fill)); alloc.fill = static_cast<unsigned char>(fill); alloc.perturb = true; if (!alloc.state) alloc.state = 1; }
                for (uint32_t b = 0; b < before && n > 1; ++b)
                {
                    int i = 1 + b % (n - 1);
                    long kill = c.get("r" + std::to_string(i) + ".killed"), q = 0;
                    Sched own;
                    own.rng = Rng(mix(c.seed, 0xb4 + b));
                    run_member(c, i, own, 1024, nullptr, [&] { if (kill && ++q == kill) throw Abandon(); });
                }
                for (uint32_t b = 0; b < twice; ++b) run_member(c, 0, c.sched(0), 1024, nullptr, nullptr);
                if (fill) dirty_stack(static_cast<unsigned char>(fill));
                return run_member(c, 0, c.sched(0), piece ? static_cast<int>(piece) : 4096, nullptr, nullptr);
            })) return;
        ++r.st["repetitions"];
        r.st["fault.heap_layout"] += layout != 0;
        r.st["fault.memory_filled"] += fill != 0;
        r.st["fault.sessions_before"] += n > 1 ? before : 0;
        r.st["fault.same_session_before"] += twice;
        r.steps += o.steps;
        h.add(o.events);
        std::string w = differ(base, o);
        if (!w.empty()) r.fail("not-reproducible", what + " " + w);
    }
    shape.add(s.log.size());
    for (auto v : s.log) shape.add(v);
    r.hash = h.h;
    r.shape = shape.h;
    for (auto& [k, v] : c.text) r.sample += k + ":\n" + v.substr(0, 500) + "\n";
    logs.push_back(s.log);
}

// ------------------------------------------------------------------ C15

namespace {

// collects output without allocating while allocations fail
class Room_buf : public std::streambuf {
    std::vector<char> room;
    int_type overflow(int_type) override { return traits_type::eof(); }
public:
    Room_buf() : room(1 << 20) { setp(room.data(), room.data() + room.size()); }
    std::string str() const { return std::string(pbase(), pptr()); }
};

struct Attempt {
    std::string out, error;
    bool caught = false, stream_bad = false, limited = false, ended = false;
    uint64_t allocations = 0, failed = 0;
};

struct Plan { uint64_t from = 0, len = 0; size_t min_size = 0; };

// one session whose allocations fail as planned
Attempt run_failing(Case const& c, int i, Sched sched, Plan const& plan, std::function<void()> const& yield)
{
    Case d = member(c, i);
    Attempt a;
    Result dummy;
    Plug_cfg pc;
    pc.read_plug(d);
    auto ses = std::make_unique<Session>(pc, std::move(sched), dummy);
    auto calm_yield = [&] {
        if (!yield) return;
        auto kept = alloc;
        alloc.armed = false;
        yield();
        int64_t live = alloc.live;
        alloc = kept;
        alloc.live = live;
    };
    ses->on_step = calm_yield;
    Room_buf room, cout_room;
    std::ostream out(&room);
    auto start = [&] {
        alloc.count = alloc.failed = 0;
        alloc.fail_from = plan.from;
        alloc.fail_len = plan.len;
        alloc.min_size = plan.min_size;
        alloc.armed = true;
    };
    auto stop = [&] {
        alloc.armed = false;
        a.allocations = alloc.count;
        a.failed = alloc.failed;
        alloc.min_size = 0;
    };
    if (d.get("is_cnf"))
    {
        Cnf f = read_cnf(c.str("cnf." + std::to_string(i)));
        for (auto& k : f.clauses) if (k.empty()) return a;
        std::string bad, assignment;
        bad.reserve(1000);
        assignment.reserve(1000);
        if (yield) yield();
        try
        {
            start();
            int got = search_cnf(d, f, *ses, bad, &assignment);
            stop();
            out << (got ? "sat" : "unsat") << "\n";
            if (!bad.empty()) a.error = bad;
        }
        catch (Abandon&) { stop(); a.ended = true; }
        catch (Limit&) { stop(); a.limited = true; }
        catch (std::exception& e) { stop(); a.caught = true; a.error = e.what(); }
        yaga::sim::hooks = nullptr;
    }
    else
    {
        std::string const& text = c.str("script." + std::to_string(i));
        Piece_buf b(text, std::max<long>(1, c.get("r" + std::to_string(i) + ".piece", 1024)), calm_yield);
        std::istream in(&b);
        auto o = read_options(d);
        auto* old_cout = std::cout.rdbuf(&cout_room);
        auto* old_hooks = yaga::sim::hooks;
        yaga::sim::hooks = ses.get();
        try
        {
            start();
            {
                yaga::parser::Smt2_parser p;
                p.set_options(o);
                p.parse(in, out);
            }
            stop();
        }
        catch (Abandon&) { stop(); a.ended = true; }
        catch (Limit&) { stop(); a.limited = true; }
        catch (std::exception& e) { stop(); a.caught = true; a.error = e.what(); }
        yaga::sim::hooks = old_hooks;
        std::cout.rdbuf(old_cout);
        std::cout.clear();
        a.stream_bad = in.bad() || out.bad();
    }
    a.out = room.str();
    return a;
}

// what is wrong with the answers of a session that ran out of memory; empty if nothing
std::string judge_failing(Attempt const& a, std::string const& complete)
{
    auto have = read_answers(a.out), want = read_answers(complete);
    // the last line may have been cut off
    size_t j = 0;
    while (j < have.size() && j < want.size() && have[j].text == want[j].text) ++j;
    bool cut = complete.compare(0, a.out.size(), a.out) == 0;
    if (!cut)
        for (size_t k = j; k < have.size(); ++k)
            if (have[k].kind != Answer::ERROR) return "prints " + have[k].text.substr(0, 200) + " as answer number " + std::to_string(k + 1) + ", which is not what memory for all gives";
    if (!a.caught && !a.stream_bad && !a.ended && !a.limited && j < want.size())
    {
        for (size_t k = j; k < have.size(); ++k)
            if (have[k].kind == Answer::ERROR) return ""; // the failure was reported on the output
        return "loses the answers from number " + std::to_string(j + 1) + " on without any error";
    }
    return "";
}

} // namespace

Case make_oom(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.scen = "oom";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e));
    Rng g(mix(seed, 0x9e4));
    int n = 1 + r.chance(1, 3); // 0: the session that runs out of memory, 1: one that does not
    c.cfg["sessions"] = n;
    for (int i = 0; i < n; ++i)
    {
        make_member(c, i, r, g, thorough, true);
        std::string p = "r" + std::to_string(i) + ".";
        static int const pieces[] = {1, 64, 1024, 100000};
        c.cfg[p + "piece"] = pieces[r.below(4)];
        c.cfg[p + "stats"] = 0;
    }
    c.cfg["p_switch"] = r.chance(1, 2) ? 60 : 500;
    c.cfg["attempts"] = thorough ? 16 : 8;
    c.cfg["tool"] = r.chance(1, 3) ? 2 : 0;
    return c;
}

void exec_oom(Case const& c, Result& r, Logs& logs)
{
    int n = c.get("sessions");
    std::vector<Sess_out> alone(n);
    for (int i = 0; i < n; ++i)
        if (!elsewhere(r, "session " + std::to_string(i) + " alone", alone[i], [&] { return run_member(c, i, c.sched(1 + i), 1024, nullptr, nullptr); })) return;
    for (auto& a : alone)
        if (a.limited || !a.error.empty()) { logs.push_back({}); for (auto& b : alone) logs.push_back(b.log); return; }
    std::string complete = alone[0].out;
    if (c.get("r0.is_cnf")) complete = complete.substr(0, complete.find(' ')) + "\n";
    Sched s = c.sched(0);
    // the choices are drawn here, relative to the number of allocations, which only the child knows
    struct Draw { uint32_t at, len, size, early; };
    std::vector<Draw> plans;
    for (int k = 0; k < c.get("attempts"); ++k)
    {
        Draw d;
        d.at = s.choose(K_FAULT, 100000, 1000);
        d.len = s.choose(K_FAULT, 5, 800);
        d.size = s.choose(K_FAULT, 5, 300);
        d.early = s.choose(K_FAULT, 3, 300);
        plans.push_back(d);
    }
    // all attempts share one process
    auto t = run_child([&] {
        std::ostringstream rep;
        auto count = run_failing(c, 0, c.sched(1), Plan{}, nullptr);
        if (count.out != complete) rep << "fail counting-run prints " << count.out.substr(0, 200) << "\n";
        uint64_t fired = 0, caught = 0, swallowed = 0, cut = 0;
        Hash h;
        Sched sw;
        sw.rng = Rng(mix(c.seed, 0x5717c4));
        for (size_t k = 0; k < plans.size(); ++k)
        {
            auto& d = plans[k];
            static size_t const sizes[] = {0, 64, 256, 1024, 4096};
            Plan p;
            p.min_size = sizes[d.size];
            uint64_t total = count.allocations;
            if (p.min_size)
            {
                Plan q;
                q.min_size = p.min_size;
                total = run_failing(c, 0, c.sched(1), q, nullptr).allocations;
            }
            if (!total) continue;
            if (d.early) total = std::max<uint64_t>(1, total / (d.early == 1 ? 4 : 20));
            p.from = 1 + d.at * total / 100000;
            static uint64_t const lens[] = {1, 1, 2, 20, 1ull << 60};
            p.len = lens[d.len];
            Attempt a;
            Sess_out other;
            std::string what = "attempt " + std::to_string(k + 1) + " (allocation " + std::to_string(p.from) + " of " + std::to_string(total) +
                (p.min_size ? " of at least " + std::to_string(p.min_size) + " bytes" : "") + " fails" + (p.len > 1 ? " and those after it" : "") + ")";
            if (n > 1)
            {
                Fibers fibers(sw);
                fibers.permille = c.get("p_switch");
                fibers.add([&] { a = run_failing(c, 0, c.sched(1), p, [&] { fibers.yield(); }); });
                fibers.add([&] { other = run_member(c, 1, c.sched(2), 64, [&] { fibers.yield(); }, [&] { fibers.yield(); }); });
                fibers.run();
                std::string w = differ(alone[1], other);
                if (!w.empty()) { rep << "fail interference " << what << ": the other session " << w << "\n"; break; }
            }
            else a = run_failing(c, 0, c.sched(1), p, nullptr);
            fired += a.failed;
            caught += a.caught;
            swallowed += a.failed && !a.caught;
            cut += a.failed && a.out.size() < complete.size();
            h.add(a.out); h.add(a.failed); h.add(a.caught);
            if (!a.failed) continue;
            if (a.error.rfind("the assignment", 0) == 0 || a.error.rfind("variable ", 0) == 0) { rep << "fail wrong-answer " << what << ": " << a.error << "\n"; break; }
            std::string w = judge_failing(a, complete);
            if (!w.empty()) { rep << "fail wrong-answer " << what << " " << w << "\n"; break; }
        }
        // with memory again everything is as before
        auto again = run_member(c, 0, c.sched(1), 1024, nullptr, nullptr);
        std::string w = differ(alone[0], again);
        if (!w.empty()) rep << "fail not-recovered the session run again with memory " << w << "\n";
        std::string text = "counts " + std::to_string(fired) + " " + std::to_string(caught) + " " + std::to_string(swallowed) + " " + std::to_string(cut) + " " +
            std::to_string(count.allocations) + " " + std::to_string(h.h) + "\n" + rep.str();
        if (write(1, text.data(), text.size()) < 0) _exit(3);
        _exit(0);
        return 0;
    });
    if (t.sig)
    {
        std::string e = t.err.substr(0, 600);
        r.fail(t.sig == SIGXCPU ? "hang" : "crash", "a session whose allocations fail ends the process by signal " + std::to_string(t.sig) + ": " + e);
    }
    std::istringstream in(t.out);
    std::string line;
    while (std::getline(in, line))
    {
        std::istringstream l(line);
        std::string k;
        l >> k;
        if (k == "counts")
        {
            uint64_t f, ca, sw, cu, al, h;
            l >> f >> ca >> sw >> cu >> al >> h;
            r.st["fault.allocation"] += f;
            r.st["errors_that_reached_the_caller"] += ca;
            r.st["failures_without_effect_or_reported_by_a_stream"] += sw;
            r.st["sessions_cut_short"] += cu;
            r.st["allocations"] += al;
            r.steps += al;
            r.hash = h;
            r.nontrivial = f > 0;
        }
        else if (k == "fail")
        {
            std::string cls, rest;
            l >> cls;
            std::getline(l, rest);
            r.fail(cls, rest.empty() ? cls : rest.substr(1));
        }
    }
    // the whole tool
    for (int k = 0; k < c.get("tool") && r.cls.empty(); ++k)
    {
        bool cnf = c.get("r0.is_cnf");
        Delivery d;
        d.bytes = c.str(cnf ? "cnf.0" : "script.0");
        auto drawn = [&](Plan const& p) {
            auto around = [&](bool begin) {
                if (begin)
                {
                    alloc.count = alloc.failed = 0;
                    alloc.fail_from = p.from;
                    alloc.fail_len = p.len;
                }
                else
                {
                    child_extra[0] = static_cast<long>(alloc.count);
                    child_extra[1] = static_cast<long>(alloc.failed);
                }
                alloc.armed = begin;
            };
            return cnf ? run_sat_tool(d, around) : run_smt_tool(d, {}, around);
        };
        auto base = drawn(Plan{});
        uint32_t at = s.choose(K_FAULT, 100000, 1000), len = s.choose(K_FAULT, 4, 800);
        static uint64_t const lens[] = {1, 2, 20, 1ull << 60};
        Plan p;
        p.from = 1 + at * static_cast<uint64_t>(base.extra[0]) / 100000;
        p.len = lens[len];
        if (base.sig || !base.extra[0]) break;
        auto got = drawn(p);
        // whatever ends main is counted before; the number of failures is known only if it returns
        ++r.st["tool_runs"];
        ++r.st["fault.allocation"];
        bool told = got.err.size() > 0 || got.code != base.code;
        std::string what = "the tool, whose allocation " + std::to_string(p.from) + " of " + std::to_string(base.extra[0]) + " fails" + (p.len > 1 ? " and those after it" : "") + ",";
        if (got.sig && !(got.sig == SIGABRT && got.err.find("bad_alloc") != std::string::npos))
            r.fail(got.sig == SIGXCPU ? "hang" : "crash", what + " is ended by signal " + std::to_string(got.sig) + ": " + got.err.substr(0, 400));
        auto have = read_answers(got.out.substr(0, got.out.find("time"))), want = read_answers(base.out.substr(0, base.out.find("time")));
        size_t j = 0;
        while (j < have.size() && j < want.size() && have[j].text == want[j].text) ++j;
        bool prefix = base.out.compare(0, got.out.size(), got.out) == 0;
        if (!prefix)
            for (size_t q = j; q < have.size(); ++q)
                if (have[q].kind == Answer::SAT || have[q].kind == Answer::UNSAT || have[q].kind == Answer::MODEL || (cnf && have[q].kind != Answer::ERROR && !told))
                    r.fail("wrong-answer", what + " prints " + have[q].text.substr(0, 200) + " as answer number " + std::to_string(q + 1));
        if (!told && j < want.size()) r.fail("silent-loss", what + " loses answers without any error");
    }
    Hash shape;
    shape.add(alone[0].events);
    for (auto v : s.log) shape.add(v);
    r.shape = shape.h;
    for (auto& [k, v] : c.text) r.sample += k + ":\n" + v.substr(0, 500) + "\n";
    logs.push_back(s.log);
    for (auto& a : alone) logs.push_back(a.log);
}

} // namespace sim
