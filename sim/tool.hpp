// Runs of the command-line tools inside the simulator: each in a child process whose files arrive
// the way a delivery plan says.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace sim {

struct Delivery {
    std::string bytes;
    std::vector<int> chunks;  // sizes of successive reads, cyclic; empty or 0: as much as asked for
    int eintr = 0;            // every n-th read is interrupted; 0: none
    long cut = -1;            // the input ends here
    long eio = -1;            // reading fails from here on
    long pause = -1;          // one read here returns nothing, later ones go on
    bool missing = false;     // the file does not exist
};

struct Tool_out {
    std::string out, err;
    int code = -1, sig = 0;
    long extra[2] = {0, 0}; // whatever the child counted
    long reads = 0, shorts = 0, interrupted = 0, failed = 0;
};

// run body in a child process; its standard output and error are captured
// shared with the child: what it counts
extern long* child_extra;
Tool_out run_child(std::function<int()> const& body);
// `around`, if given, is told when the tool's main starts (true) and when it has returned (false)
Tool_out run_smt_tool(Delivery const& d, std::vector<std::string> const& args, std::function<void(bool)> const& around = nullptr);
Tool_out run_sat_tool(Delivery const& d, std::function<void(bool)> const& around = nullptr);
// Smt2_parser::parse over a stream buffer that serves the delivery (printing on std::cout)
Tool_out run_smt_stream(Delivery const& d, std::vector<std::string> const& args);

// serves a delivery; used by the stream and by the interposed read()
class Server {
public:
    void start(Delivery const& d) { plan = &d; pos = 0; n = 0; paused = false; }
    Delivery const* plan = nullptr;
    size_t pos = 0;
    long n = 0;
    bool paused = false;
    // as read(2): bytes delivered, 0 at the end, -1 with errno
    long get(char* to, size_t want);
};

} // namespace sim
