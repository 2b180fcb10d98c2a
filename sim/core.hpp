// Deterministic-simulation core: PRNG, traces, run context, memory/step seams.
//
// A *trace* is the complete, explicit description of one simulated execution: configuration, data, schedule
// and faults. Generators draw traces from a seeded PRNG; running a trace draws nothing, so a trace is its own
// replay file and can be minimised by deleting and shrinking operations.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

// ------------------------------------------------------------------ PRNG
struct Rng
{
    uint64_t s[2];
    explicit Rng(uint64_t seed)
    {
        auto mix = [](uint64_t& z) {
            z += 0x9E3779B97F4A7C15ull;
            uint64_t x = z;
            x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
            x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
            return x ^ (x >> 31);
        };
        s[0] = mix(seed);
        s[1] = mix(seed);
    }
    uint64_t next()
    {
        uint64_t a = s[0];
        const uint64_t b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    // uniform in [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    // weighted choice, returns index
    size_t weighted(std::initializer_list<unsigned> w)
    {
        uint64_t t = 0;
        for (auto x : w) { t += x; }
        uint64_t r = below(t);
        size_t i = 0;
        for (auto x : w)
        {
            if (r < x) { return i; }
            r -= x;
            ++i;
        }
        return 0;
    }
};

// ------------------------------------------------------------------ trace
struct Op
{
    std::string k;
    std::vector<int64_t> a;
    std::string b;
    int64_t at(size_t i, int64_t d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Trace
{
    std::string scenario;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    int64_t get(const std::string& k, int64_t d = 0) const
    {
        auto it = cfg.find(k);
        return it == cfg.end() ? d : it->second;
    }
    void add(std::string k, std::vector<int64_t> a = {}, std::string b = {}) { ops.push_back(Op{std::move(k), std::move(a), std::move(b)}); }
};
std::string Serialise(const Trace& t);
bool Parse(const std::string& text, Trace& t, std::string& expectClass, std::string& expectHash);

// ------------------------------------------------------------------ run context
struct Violation
{
    std::string cls; // stable class, decides whether two failures are "the same"
    std::string msg;
};

class Ctx
{
  public:
    uint64_t hash = 1469598103934665603ull;
    bool verbose = false;
    std::string log; // only filled when verbose
    uint64_t calls = 0;
    uint64_t simBytes = 0;
    uint64_t nontrivial = 0;
    std::map<std::string, uint64_t> faults;
    std::map<std::string, uint64_t> probes;

    void mix(uint64_t v)
    {
        for (int i = 0; i < 8; ++i)
        {
            hash ^= (v >> (8 * i)) & 0xFF;
            hash *= 1099511628211ull;
        }
    }
    void mix(std::string_view v)
    {
        for (unsigned char c : v)
        {
            hash ^= c;
            hash *= 1099511628211ull;
        }
        mix(v.size());
    }
    // record an observable event
    void ev(std::string_view what, std::initializer_list<int64_t> n = {}, std::string_view bytes = {});
    void fault(const char* kind, uint64_t n = 1) { faults[kind] += n; }
    void probe(const char* name, uint64_t n = 1) { probes[name] += n; }
    [[noreturn]] void fail(std::string cls, std::string msg) { throw Violation{std::move(cls), std::move(msg)}; }
    void check(bool ok, const char* cls, const std::string& msg)
    {
        if (!ok) { fail(cls, msg); }
    }
};

// ------------------------------------------------------------------ scenario registry
struct Scenario
{
    virtual ~Scenario() = default;
    virtual void gen(Rng& r, Trace& t, bool thorough) = 0;
    virtual void run(const Trace& t, Ctx& c) = 0;
    // every run in a process of its own, in which no library code has run before: for scenarios that depend on
    // the state of static variables, or that start threads. gen() must not call the library then.
    virtual bool isolated() const { return false; }
};
struct ScenarioInfo
{
    std::string name;
    std::function<std::unique_ptr<Scenario>()> make;
};
std::vector<ScenarioInfo>& Scenarios();
struct RegisterScenario
{
    RegisterScenario(std::string n, std::function<std::unique_ptr<Scenario>()> m) { Scenarios().push_back({std::move(n), std::move(m)}); }
};
#define SIM_SCENARIO(NAME, CLS) static ::sim::RegisterScenario reg_##CLS(NAME, [] { return std::unique_ptr<::sim::Scenario>(new CLS()); });

// ------------------------------------------------------------------ library-call scope and step clock
// Logical time is the number of instrumented basic-block edges executed inside library calls.
extern thread_local int g_inLib;
extern volatile uint64_t g_steps;     // edges executed in this run
extern volatile uint64_t g_stepLimit; // absolute value at which the run is declared livelocked
using YieldFn = void (*)();
extern volatile uint64_t g_yieldAt; // scheduler preemption point
extern YieldFn g_yield;
extern const unsigned char* g_meet; // per basic block: threads meet here (see sched.cpp)
extern void (*g_meetFn)(uint32_t);

struct LibCall
{
    uint64_t before;
    // budget: edges this call may execute before it is declared not to make progress
    explicit LibCall(uint64_t budget = 200000000ull);
    ~LibCall();
};
template <typename F> auto Lib(F&& f) -> decltype(f())
{
    LibCall g;
    return f();
}
template <typename F> auto LibBudget(uint64_t budget, F&& f) -> decltype(f())
{
    LibCall g(budget);
    return f();
}

// ------------------------------------------------------------------ memory seam
// Fill byte for fresh heap memory and scribbled stack: makes any dependence on uninitialised memory visible by
// running the same trace under two fills.
extern int g_fill;               // -1: leave alone
extern int64_t g_allocFailAt;    // fail the n-th allocation made inside library calls (0-based), -1: never
extern int64_t g_allocFailCount; // how many consecutive allocations fail from there on
extern int64_t g_allocCount;     // allocations made inside library calls so far
extern bool g_allocFired;
void TrackAllocs(bool on);       // start (forgetting all) or stop recording the blocks allocated inside library calls
int64_t TrackedLive();           // of those, the ones not freed yet
extern int64_t g_liveAllocs;     // outstanding operator-new blocks (all)
void ScribbleStack(int fill);

// ------------------------------------------------------------------ misc helpers
std::string Hex(std::string_view b);
std::string UnHex(std::string_view h);
std::string Printable(std::string_view b, size_t max = 80);
uint64_t Fnv(std::string_view b);

// A byte buffer with poisoned guard zones (ASan) and pattern guards around it; used for every output buffer handed to
// the library.
class GuardedBuf
{
    std::vector<unsigned char> v_;
    size_t n_;
    static constexpr size_t G = 512;

  public:
    explicit GuardedBuf(size_t n, unsigned char fill = 0xEE);
    ~GuardedBuf();
    GuardedBuf(const GuardedBuf&) = delete;
    GuardedBuf& operator=(const GuardedBuf&) = delete;
    unsigned char* data() { return v_.data() + G; }
    size_t size() const { return n_; }
    void refill(unsigned char fill) { std::memset(data(), fill, n_); }
    void setBeyond(bool) {}
};
} // namespace sim
