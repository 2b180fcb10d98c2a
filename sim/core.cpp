#include "core.hpp"

#include <cstdio>
#include <cstdlib>
#include <new>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include <unistd.h>

#include "sched.hpp"
#include "shm.hpp"

namespace sim {

thread_local int g_inLib = 0;
volatile uint64_t g_steps = 0;
volatile uint64_t g_stepLimit = ~0ull;
volatile uint64_t g_yieldAt = ~0ull;
YieldFn g_yield = nullptr;
const unsigned char* g_meet = nullptr;
void (*g_meetFn)(uint32_t) = nullptr;

int g_fill = -1;
int64_t g_allocFailAt = -1;
int64_t g_allocFailCount = 1;
int64_t g_allocCount = 0;
bool g_allocFired = false;
int64_t g_liveAllocs = 0;

std::vector<ScenarioInfo>& Scenarios()
{
    static std::vector<ScenarioInfo> s;
    return s;
}

LibCall::LibCall(uint64_t budget)
{
    before = g_stepLimit;
    if (g_inLib == 0 && !g_threaded) { g_stepLimit = g_steps + budget; }
    ++g_inLib;
}
LibCall::~LibCall()
{
    --g_inLib;
    if (g_inLib == 0 && !g_threaded) { g_stepLimit = before; }
}

static const char* kHex = "0123456789abcdef";
std::string Hex(std::string_view b)
{
    std::string o;
    o.reserve(b.size() * 2);
    for (unsigned char c : b)
    {
        o += kHex[c >> 4];
        o += kHex[c & 15];
    }
    return o;
}
std::string UnHex(std::string_view h)
{
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    std::string o;
    o.reserve(h.size() / 2);
    for (size_t i = 0; i + 1 < h.size(); i += 2) { o += static_cast<char>(v(h[i]) * 16 + v(h[i + 1])); }
    return o;
}
std::string Printable(std::string_view b, size_t max)
{
    std::string o;
    for (size_t i = 0; i < b.size() && i < max; ++i)
    {
        unsigned char c = static_cast<unsigned char>(b[i]);
        if (c >= 32 && c < 127) { o += static_cast<char>(c); }
        else
        {
            o += "\\x";
            o += kHex[c >> 4];
            o += kHex[c & 15];
        }
    }
    if (b.size() > max) { o += "...(" + std::to_string(b.size()) + " bytes)"; }
    return o;
}
uint64_t Fnv(std::string_view b)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : b)
    {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h;
}

void Ctx::ev(std::string_view what, std::initializer_list<int64_t> n, std::string_view bytes)
{
    mix(what);
    for (auto x : n) { mix(static_cast<uint64_t>(x)); }
    mix(bytes);
    if (verbose)
    {
        log += what;
        for (auto x : n)
        {
            log += ' ';
            log += std::to_string(x);
        }
        if (!bytes.empty())
        {
            log += " | ";
            log += Printable(bytes, 200);
        }
        log += '\n';
    }
}

std::string Serialise(const Trace& t)
{
    std::string o = "scenario " + t.scenario + "\n";
    for (auto& [k, v] : t.cfg) { o += "cfg " + k + " " + std::to_string(v) + "\n"; }
    for (auto& op : t.ops)
    {
        o += "op " + op.k;
        for (auto x : op.a)
        {
            o += ' ';
            o += std::to_string(x);
        }
        if (!op.b.empty())
        {
            // run-length form for long constant stretches keeps replay files readable
            bool constant = op.b.size() > 64;
            for (size_t i = 1; constant && i < op.b.size(); ++i) { constant = op.b[i] == op.b[0]; }
            if (constant) { o += " *" + std::to_string(op.b.size()) + ":" + Hex(op.b.substr(0, 1)); }
            else { o += " |" + Hex(op.b); }
        }
        o += "\n";
    }
    return o;
}
bool Parse(const std::string& text, Trace& t, std::string& ec, std::string& eh)
{
    size_t p = 0;
    while (p < text.size())
    {
        size_t e = text.find('\n', p);
        if (e == std::string::npos) { e = text.size(); }
        std::string line = text.substr(p, e - p);
        p = e + 1;
        if (line.empty() || line[0] == '#')
        {
            if (line.rfind("#class ", 0) == 0) { ec = line.substr(7); }
            if (line.rfind("#hash ", 0) == 0) { eh = line.substr(6); }
            continue;
        }
        std::vector<std::string> w;
        size_t q = 0;
        while (q < line.size())
        {
            size_t z = line.find(' ', q);
            if (z == std::string::npos) { z = line.size(); }
            if (z > q) { w.push_back(line.substr(q, z - q)); }
            q = z + 1;
        }
        if (w[0] == "scenario" && w.size() == 2) { t.scenario = w[1]; }
        else if (w[0] == "cfg" && w.size() == 3) { t.cfg[w[1]] = std::atoll(w[2].c_str()); }
        else if (w[0] == "op" && w.size() >= 2)
        {
            Op op;
            op.k = w[1];
            for (size_t i = 2; i < w.size(); ++i)
            {
                if (w[i][0] == '|') { op.b = UnHex(std::string_view(w[i]).substr(1)); }
                else if (w[i][0] == '*')
                {
                    size_t n = std::strtoull(w[i].c_str() + 1, nullptr, 10);
                    op.b = std::string(n, UnHex(w[i].substr(w[i].find(':') + 1))[0]);
                }
                else { op.a.push_back(std::atoll(w[i].c_str())); }
            }
            t.ops.push_back(std::move(op));
        }
        else { return false; }
    }
    return !t.scenario.empty();
}

__attribute__((noinline)) void ScribbleStack(int fill)
{
    if (fill < 0) { return; }
    volatile char* p = static_cast<volatile char*>(__builtin_alloca(96 * 1024));
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    __asan_unpoison_memory_region(const_cast<char*>(p), 96 * 1024);
#endif
#endif
    for (int i = 0; i < 96 * 1024; ++i) { p[i] = static_cast<char>(fill); }
}

GuardedBuf::GuardedBuf(size_t n, unsigned char fill) : v_(n + 2 * G + 16, 0xCD), n_(n)
{
    std::memset(data(), fill, n);
    // ASan poisoning works on 8-byte granules; the end of the buffer is placed so that the first byte after it is exact.
    ASAN_POISON_MEMORY_REGION(v_.data(), G);
    ASAN_POISON_MEMORY_REGION(data() + n_, v_.size() - G - n_);
}
GuardedBuf::~GuardedBuf() { ASAN_UNPOISON_MEMORY_REGION(v_.data(), v_.size()); }

} // namespace sim

// ------------------------------------------------------------------ coverage callback = step clock + yield points
static uint32_t g_guardCount = 0;
static unsigned char* g_hit = nullptr; // per-edge hit count bucket for this run
static std::vector<uint32_t>* g_touched = nullptr;
namespace sim {
uint32_t GuardCount() { return g_guardCount; }
void CoverageReset()
{
    if (!g_hit)
    {
        g_hit = static_cast<unsigned char*>(std::calloc(g_guardCount + 1, 1));
        g_touched = new std::vector<uint32_t>();
        g_touched->reserve(g_guardCount + 1);
    }
    for (auto i : *g_touched) { g_hit[i] = 0; }
    g_touched->clear();
    g_steps = 0;
}
// Signature of the set of edges with bucketed hit counts; also folds the edges into the shared global map.
uint64_t CoverageSignature()
{
    uint64_t h = 0;
    for (auto i : *g_touched)
    {
        unsigned c = g_hit[i];
        unsigned b = c <= 3 ? c : c < 8 ? 4 : c < 16 ? 5 : c < 32 ? 6 : c < 128 ? 7 : 8;
        uint64_t x = (static_cast<uint64_t>(i) << 8 | b) * 0x9E3779B97F4A7C15ull;
        x ^= x >> 29;
        h += x * 0xBF58476D1CE4E5B9ull;
        if (g_shm && i < Shm::kEdges) { g_shm->edges[i] = 1; }
    }
    return h;
}
} // namespace sim

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    if (start == stop || *start) { return; }
    for (uint32_t* p = start; p < stop; ++p) { *p = ++g_guardCount; }
}
extern "C" __attribute__((no_sanitize("address", "coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t* guard)
{
    if (sim::g_inLib == 0) { return; }
    const uint64_t s = ++sim::g_steps;
    if (g_hit)
    {
        unsigned char& c = g_hit[*guard];
        if (c == 0)
        {
            c = 1;
            g_touched->push_back(*guard);
        }
        else if (c < 255) { ++c; }
    }
    if (s >= sim::g_stepLimit)
    {
        sim::g_stepLimit = ~0ull;
        sim::Die("livelock", "a library call exceeded its step budget without returning");
    }
    if (sim::g_meet && sim::g_meet[*guard]) { sim::g_meetFn(*guard); }
    if (s >= sim::g_yieldAt && sim::g_yield) { sim::g_yield(); }
}

// ------------------------------------------------------------------ allocator seam
namespace {
// addresses of the blocks the library has allocated and not freed since TrackAllocs(true)
constexpr size_t kTrack = 1 << 18;
void** g_track = nullptr;
bool g_tracking = false;
int64_t g_tracked = 0;
void* const kGone = reinterpret_cast<void*>(1);
size_t TrackSlot(void* p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> (64 - 18); }
void TrackAdd(void* p)
{
    if (g_tracked > static_cast<int64_t>(kTrack / 2)) { return; }
    size_t i = TrackSlot(p);
    while (g_track[i] != nullptr && g_track[i] != kGone) { i = (i + 1) % kTrack; }
    g_track[i] = p;
    ++g_tracked;
}
void TrackDel(void* p)
{
    size_t i = TrackSlot(p), n = 0;
    while (g_track[i] != nullptr && g_track[i] != p && ++n < kTrack) { i = (i + 1) % kTrack; }
    if (g_track[i] == p)
    {
        g_track[i] = kGone;
        --g_tracked;
    }
}
} // namespace
namespace sim {
void TrackAllocs(bool on)
{
    if (!g_track) { g_track = static_cast<void**>(mmap(nullptr, kTrack * sizeof(void*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); }
    if (on)
    {
        std::memset(g_track, 0, kTrack * sizeof(void*));
        g_tracked = 0;
    }
    g_tracking = on;
}
int64_t TrackedLive() { return g_tracked; }
} // namespace sim
static inline void* SimAlloc(size_t n)
{
    if (sim::g_inLib > 0)
    {
        const int64_t i = sim::g_allocCount++;
        if (sim::g_allocFailAt >= 0 && i >= sim::g_allocFailAt && i < sim::g_allocFailAt + sim::g_allocFailCount)
        {
            sim::g_allocFired = true;
            return nullptr;
        }
    }
    void* p = std::malloc(n ? n : 1);
    if (p == nullptr) { return nullptr; }
    ++sim::g_liveAllocs;
    if (g_tracking && sim::g_inLib > 0) { TrackAdd(p); }
    if (sim::g_fill >= 0) { std::memset(p, sim::g_fill, n); }
    return p;
}
void* operator new(size_t n)
{
    void* p = SimAlloc(n);
    if (!p) { throw std::bad_alloc(); }
    return p;
}
void* operator new[](size_t n)
{
    void* p = SimAlloc(n);
    if (!p) { throw std::bad_alloc(); }
    return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return SimAlloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return SimAlloc(n); }
static inline void SimFree(void* p) noexcept
{
    if (!p) { return; }
    --sim::g_liveAllocs;
    if (g_tracking) { TrackDel(p); }
    std::free(p);
}
void operator delete(void* p) noexcept { SimFree(p); }
void operator delete[](void* p) noexcept { SimFree(p); }
void operator delete(void* p, size_t) noexcept { SimFree(p); }
void operator delete[](void* p, size_t) noexcept { SimFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { SimFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { SimFree(p); }
