// The simulated allocator: every operator new of the process goes through it.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sim {
struct Alloc {
    // failure injection
    bool armed = false;
    uint64_t count = 0;         // allocations since arming
    uint64_t fail_from = 0;     // first failing allocation (1-based), 0: never
    uint64_t fail_len = 0;      // how many consecutive allocations fail
    uint64_t failed = 0;        // how many did fail
    size_t min_size = 0;        // smaller allocations neither count nor fail
    // layout perturbation
    bool perturb = false;
    uint64_t state = 0;         // PRNG of the layout
    unsigned char fill = 0;     // fresh memory is filled with this byte
    uint64_t perturbed = 0;
    // accounting of live blocks while armed or perturbing
    int64_t live = 0;
};
extern Alloc alloc;
} // namespace sim
