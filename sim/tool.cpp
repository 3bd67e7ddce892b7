#include "tool.hpp"
#include "Options.h"
#include "Smt2_parser.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <new>
#include <streambuf>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int yaga_smt_main(int argc, char** argv);
extern "C" int yaga_sat_main(int argc, char** argv);

namespace sim {

struct Shared { long reads, shorts, interrupted, failed, extra[2]; };
long* child_extra = nullptr;
static Shared* shared = nullptr;
static Server server;
static ino_t served = 0; // the file whose reads are simulated
static dev_t served_dev = 0;

long Server::get(char* to, size_t want)
{
    auto& d = *plan;
    if (shared) ++shared->reads;
    ++n;
    if (d.eintr > 0 && n % d.eintr == 0)
    {
        if (shared) ++shared->interrupted;
        errno = EINTR;
        return -1;
    }
    size_t end = d.bytes.size();
    if (d.cut >= 0) end = std::min<size_t>(end, d.cut);
    if (d.eio >= 0) end = std::min<size_t>(end, d.eio);
    if (d.pause >= 0 && !paused) end = std::min<size_t>(end, d.pause);
    if (pos >= end)
    {
        if (d.pause >= 0 && !paused && pos >= static_cast<size_t>(d.pause)) { paused = true; if (shared) ++shared->failed; return 0; }
        if (d.eio >= 0 && pos >= static_cast<size_t>(d.eio)) { if (shared) ++shared->failed; errno = EIO; return -1; }
        if (d.cut >= 0 && pos < d.bytes.size() && shared) ++shared->failed;
        return 0;
    }
    size_t k = std::min(want, end - pos);
    if (!d.chunks.empty())
    {
        int c = d.chunks[(n - 1) % d.chunks.size()];
        if (c > 0 && static_cast<size_t>(c) < k) { k = c; if (shared) ++shared->shorts; }
    }
    memcpy(to, d.bytes.data() + pos, k);
    pos += k;
    return static_cast<long>(k);
}

static std::string slurp(int fd)
{
    std::string s;
    off_t end = lseek(fd, 0, SEEK_END);
    s.resize(end > 0 ? end : 0);
    size_t at = 0;
    while (at < s.size())
    {
        auto k = pread(fd, s.data() + at, s.size() - at, at);
        if (k <= 0) break;
        at += k;
    }
    s.resize(at);
    return s;
}

Tool_out run_child(std::function<int()> const& body)
{
    if (!shared)
    {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
        shared = static_cast<Shared*>(p);
    }
    *shared = {};
    child_extra = shared->extra;
    int out = memfd_create("out", 0), err = memfd_create("err", 0);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0)
    {
        dup2(out, 1);
        dup2(err, 2);
        int code = body();
        exit(code);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Tool_out t;
    t.out = slurp(out);
    t.err = slurp(err);
    close(out);
    close(err);
    t.extra[0] = shared->extra[0]; t.extra[1] = shared->extra[1];
    t.reads = shared->reads; t.shorts = shared->shorts; t.interrupted = shared->interrupted; t.failed = shared->failed;
    if (WIFSIGNALED(st)) t.sig = WTERMSIG(st);
    else t.code = WEXITSTATUS(st);
    return t;
}

static Tool_out run_main(int (*tool)(int, char**), Delivery const& d, std::vector<std::string> args, std::function<void(bool)> const& around)
{
    return run_child([&] {
        int fd = memfd_create("input", 0);
        if (ftruncate(fd, static_cast<off_t>(d.bytes.size()))) {}
        size_t at = 0;
        while (at < d.bytes.size())
        {
            auto k = pwrite(fd, d.bytes.data() + at, d.bytes.size() - at, at);
            if (k <= 0) break;
            at += k;
        }
        dup2(fd, 9);
        struct stat sb;
        fstat(9, &sb);
        server.start(d);
        served = sb.st_ino;
        served_dev = sb.st_dev;
        args.insert(args.begin(), "tool");
        args.push_back(d.missing ? "/proc/self/fd/nothing-here" : "/proc/self/fd/9");
        std::vector<char*> argv;
        for (auto& a : args) argv.push_back(a.data());
        argv.push_back(nullptr);
        if (around) around(true);
        int code = tool(static_cast<int>(args.size()), argv.data());
        if (around) around(false);
        return code;
    });
}

Tool_out run_smt_tool(Delivery const& d, std::vector<std::string> const& args, std::function<void(bool)> const& around) { return run_main(yaga_smt_main, d, args, around); }
Tool_out run_sat_tool(Delivery const& d, std::function<void(bool)> const& around) { return run_main(yaga_sat_main, d, {}, around); }

namespace {
class Served_buf : public std::streambuf {
    char area[4096];
    int_type underflow() override
    {
        for (;;)
        {
            long k = server.get(area, sizeof area);
            if (k < 0 && errno == EINTR) continue;
            if (k < 0) throw std::runtime_error("the device failed");
            if (k == 0) return traits_type::eof();
            setg(area, area, area + k);
            return traits_type::to_int_type(area[0]);
        }
    }
};
} // namespace

Tool_out run_smt_stream(Delivery const& d, std::vector<std::string> const& args)
{
    return run_child([&] {
        yaga::Options o;
        for (size_t i = 0; i < args.size(); ++i)
        {
            if (args[i] == "--prop-rational") o.prop_rational = true;
            if (args[i] == "--deduce-bounds") o.deduce_bounds = true;
            if (args[i] == "--print-stats") o.print_stats = true;
            if (args[i] == "--phase" && i + 1 < args.size())
                o.phase = args[i + 1] == "positive" ? yaga::Phase::positive : args[i + 1] == "negative" ? yaga::Phase::negative : yaga::Phase::cache;
        }
        server.start(d);
        Served_buf b;
        std::istream in(&b);
        try
        {
            yaga::parser::Smt2_parser p;
            p.set_options(o);
            p.parse(in, std::cout);
        }
        catch (std::exception& e) { std::cerr << "Error: " << e.what() << "\n"; }
        return 0;
    });
}

} // namespace sim

// The tools read their input through this.
extern "C" ssize_t read(int fd, void* to, size_t n)
{
    if (sim::served)
    {
        struct stat sb;
        if (fstat(fd, &sb) == 0 && sb.st_ino == sim::served && sb.st_dev == sim::served_dev) return sim::server.get(static_cast<char*>(to), n);
    }
    return syscall(SYS_read, fd, to, n);
}
