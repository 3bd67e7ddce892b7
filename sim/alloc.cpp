#include "alloc.hpp"
#include <cstdlib>
#include <cstring>
#include <new>

namespace sim { Alloc alloc; }

// Every block carries a header so that padded blocks can be freed.
namespace {
constexpr size_t head = 16;
struct Header { void* base; size_t size; };

void* get(size_t n, bool nothrow)
{
    using sim::alloc;
    if (alloc.armed && n >= alloc.min_size)
    {
        ++alloc.count;
        if (alloc.fail_from && alloc.count >= alloc.fail_from && alloc.count - alloc.fail_from < alloc.fail_len)
        {
            ++alloc.failed;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    size_t pad = 0;
    if (alloc.perturb)
    {
        uint64_t& s = alloc.state;
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        pad = (s % 9) * 16;
        ++alloc.perturbed;
        if (s % 11 == 0)
        {
            // leave a hole of the same size class so that addresses do not grow monotonically
            void* hole = std::malloc(n + head);
            void* p = std::malloc(n + head + pad);
            std::free(hole);
            if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
            char* q = static_cast<char*>(p) + pad;
            *reinterpret_cast<Header*>(q) = {p, n};
            std::memset(q + head, alloc.fill, n);
            ++alloc.live;
            return q + head;
        }
    }
    void* p = std::malloc(n + head + pad);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    char* q = static_cast<char*>(p) + pad;
    *reinterpret_cast<Header*>(q) = {p, n};
    if (alloc.perturb) std::memset(q + head, alloc.fill, n);
    ++alloc.live;
    return q + head;
}
void put(void* p)
{
    if (!p) return;
    --sim::alloc.live;
    auto* h = reinterpret_cast<Header*>(static_cast<char*>(p) - head);
    if (sim::alloc.perturb) std::memset(p, sim::alloc.fill ^ 0x5a, h->size);
    std::free(h->base);
}
} // namespace

void* operator new(size_t n) { return get(n, false); }
void* operator new[](size_t n) { return get(n, false); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return get(n, true); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return get(n, true); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { put(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { put(p); }
