// Deterministic thread scheduler and the interposed waiting primitives.
//
// The interposed functions only act for simulated threads; for every other caller (the supervisor, single-threaded
// scenarios) they hand on to the C library.
#include "sched.hpp"

#include <algorithm>
#include <bits/atomic_futex.h>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>

#include "shm.hpp"

extern "C" int __interceptor_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" int __interceptor_pthread_join(pthread_t, void**);

namespace sim {
bool g_threaded = false;
namespace {
enum State
{
    READY,
    WAITING,
    DONE
};
struct SimThread
{
    int id = 0;
    State st = READY;
    sem_t baton;
    std::function<bool()> ready;
    const char* why = "";
    bool timed = false, timedOut = false;
    bool lib = false;
    pthread_t handle{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    std::function<void()> body;
    std::map<uint32_t, uint32_t> visits; // of meeting places
    uint32_t heldAt = 0;                 // meeting place it waits at
};
struct Sched
{
    std::vector<SimThread*> all;
    const ThreadPlan* plan = nullptr;
    Ctx* ctx = nullptr;
    size_t next = 0;
    int64_t rr = 0;
    Rng tail{0};
    int burst = 0;
    sem_t done;
    ThreadReport rep;
    bool violated = false;
    Violation v;
    uint64_t creations = 0;
};
Sched* g_s = nullptr;
thread_local SimThread* cur = nullptr;

struct Outside // scheduler code is not library code: no steps, no failing allocations
{
    int s = g_inLib;
    Outside() { g_inLib = 0; }
    ~Outside() { g_inLib = s; }
};
struct Lock
{
    SimThread* owner = nullptr;
    int depth = 0;
    int readers = 0;
};
std::map<const void*, Lock>& Locks()
{
    static auto* m = new std::map<const void*, Lock>();
    return *m;
}
std::map<const void*, std::vector<SimThread*>>& Conds()
{
    static auto* m = new std::map<const void*, std::vector<SimThread*>>();
    return *m;
}

void Wake(SimThread* t) { sem_post(&t->baton); }
void Park(SimThread* t)
{
    while (sem_wait(&t->baton) != 0) {}
}

[[noreturn]] void Stuck()
{
    static std::string m, k;
    m = "no thread can go on:";
    for (auto* t : g_s->all)
    {
        if (t->st == DONE) { continue; }
        m += " thread " + std::to_string(t->id) + (t->lib ? " (of the library)" : "") + " waits for " + t->why + ";";
    }
    k = std::string(g_s->plan->prefix) + "deadlock";
    Die(k.c_str(), m.c_str());
}

// Who goes on now? Sets the end of its slice. nullptr: everybody has ended
SimThread* Choose()
{
    std::vector<SimThread*> run;
    bool any = false;
    for (auto* t : g_s->all)
    {
        if (t->st == DONE) { continue; }
        any = true;
        if (t->st == READY || (t->ready && t->ready())) { run.push_back(t); }
    }
    if (!any) { return nullptr; }
    if (run.empty())
    {
        for (auto* t : g_s->all)
        {
            if (t->st == WAITING && t->timed)
            {
                t->timedOut = true; // nothing else can happen: time passes
                run.push_back(t);
                break;
            }
        }
    }
    if (run.empty()) { Stuck(); }
    int64_t pick, len;
    if (g_s->burst > 0)
    {
        --g_s->burst;
        pick = static_cast<int64_t>(g_s->tail.below(64));
        len = 1 + static_cast<int64_t>(g_s->tail.below(g_s->tail.pick<uint64_t>({2, 8, 32})));
    }
    else if (g_s->next < g_s->plan->slices.size())
    {
        const Slice& s = g_s->plan->slices[g_s->next++];
        pick = s.pick;
        len = std::max<int64_t>(1, s.len);
    }
    else if (g_s->plan->tailSeed)
    {
        pick = static_cast<int64_t>(g_s->tail.below(64));
        len = 1 + static_cast<int64_t>(g_s->tail.below(1ull << g_s->tail.range(0, g_s->plan->tailBits)));
    }
    else
    {
        pick = g_s->rr++;
        len = 50000;
    }
    SimThread* t = run[static_cast<size_t>(pick < 0 ? 0 : pick) % run.size()];
    g_yieldAt = g_steps + static_cast<uint64_t>(len);
    return t;
}
// hand the baton on; the caller's state says whether it can get it back
void Switch()
{
    SimThread* me = cur;
    SimThread* t = Choose();
    if (t == nullptr)
    {
        sem_post(&g_s->done);
        return;
    }
    if (t != me)
    {
        g_s->rep.switches++;
        g_s->ctx->mix(static_cast<uint64_t>(t->id) << 48 | (g_steps & 0xFFFFFFFFFFFFull));
        Wake(t);
        if (me->st != DONE) { Park(me); }
    }
}
void Preempt()
{
    if (cur == nullptr) { return; }
    Outside o;
    g_s->rep.preemptions++;
    Switch();
}
void SyncPoint()
{
    const uint64_t s = ++g_steps;
    if (s >= g_yieldAt) { Preempt(); }
}
// false: timed out
bool Await(const char* why, std::function<bool()> ready, bool timed = false)
{
    Outside o;
    if (ready()) { return true; }
    g_s->rep.waits++;
    cur->why = why;
    cur->timed = timed;
    cur->timedOut = false;
    cur->ready = std::move(ready);
    cur->st = WAITING;
    Switch();
    cur->st = READY;
    cur->ready = nullptr;
    return !cur->timedOut;
}
void Meet(uint32_t edge)
{
    if (cur == nullptr) { return; }
    Outside o;
    const uint32_t n = ++cur->visits[edge];
    if (n & (n - 1)) { return; } // the 1st, 2nd, 4th, 8th.. time
    for (auto* t : g_s->all)
    {
        if (t != cur && t->st == WAITING && t->heldAt == edge)
        {
            t->heldAt = 0;
            g_s->rep.meetings++;
            g_s->burst = 16;
            Switch();
            return;
        }
    }
    SimThread* me = cur;
    me->heldAt = edge;
    Await("another thread at the same place", [me] { return me->heldAt == 0; }, true);
    me->heldAt = 0;
}
void* Trampoline(void* p)
{
    auto* t = static_cast<SimThread*>(p);
    Park(t);
    cur = t;
    void* r = nullptr;
    if (t->lib)
    {
        g_inLib = 1;
        r = t->fn(t->arg);
        g_inLib = 0;
    }
    else
    {
        try
        {
            t->body();
        }
        catch (const Violation& v)
        {
            if (!g_s->violated)
            {
                g_s->violated = true;
                g_s->v = v;
            }
            sem_post(&g_s->done);
            for (;;) { pause(); }
        }
        catch (const std::exception& e)
        {
            g_s->violated = true;
            g_s->v = Violation{std::string(g_s->plan->prefix) + "escaped-exception", std::string("an exception left the library on a simulated thread: ") + e.what()};
            sem_post(&g_s->done);
            for (;;) { pause(); }
        }
        g_inLib = 0;
        g_s->rep.alive = LibThreadsAlive();
    }
    t->st = DONE;
    Switch();
    cur = nullptr;
    if (!t->lib)
    {
        for (;;) { pause(); } // stays until the process of this run ends
    }
    return r;
}
int Start(SimThread* t)
{
    sem_init(&t->baton, 0, 0);
    t->id = static_cast<int>(g_s->all.size());
    const int rc = __interceptor_pthread_create(&t->handle, nullptr, Trampoline, t);
    if (rc == 0) { g_s->all.push_back(t); }
    return rc;
}
} // namespace

bool InSimThread() { return cur != nullptr; }
size_t LibThreadsAlive()
{
    size_t n = 0;
    if (g_s)
    {
        for (auto* t : g_s->all) { n += t->lib && t->st != DONE; }
    }
    return n;
}

ThreadReport RunThreads(Ctx& c, const std::vector<std::function<void()>>& bodies, const ThreadPlan& plan)
{
    if (bodies.empty()) { return {}; }
    Sched* s = new Sched();
    s->plan = &plan;
    s->tail = Rng(plan.tailSeed ^ plan.meetSeed * 3);
    std::vector<unsigned char> meet;
    if (plan.meetMod)
    {
        meet.resize(GuardCount() + 1);
        for (size_t i = 1; i < meet.size(); ++i)
        {
            uint64_t x = (i + plan.meetSeed * 0x9E3779B97F4A7C15ull) * 0xD6E8FEB86659FD93ull;
            x ^= x >> 32;
            x *= 0xD6E8FEB86659FD93ull;
            meet[i] = (x >> 20) % plan.meetMod == 0;
        }
        g_meetFn = Meet;
        g_meet = meet.data();
    }
    s->ctx = &c;
    sem_init(&s->done, 0, 0);
    g_s = s;
    Locks().clear();
    Conds().clear();
    g_threaded = true;
    g_stepLimit = g_steps + plan.stepLimit;
    g_yield = Preempt;
    for (auto& b : bodies)
    {
        auto* t = new SimThread();
        t->body = b;
        if (Start(t) != 0) { throw std::runtime_error("cannot start a simulated thread"); }
    }
    SimThread* f = Choose();
    Wake(f);
    while (sem_wait(&s->done) != 0) {}
    g_threaded = false;
    g_yieldAt = ~0ull;
    g_stepLimit = ~0ull;
    g_yield = nullptr;
    g_meet = nullptr;
    if (s->violated) { throw s->v; }
    c.mix(s->rep.switches);
    c.mix(g_steps);
    ThreadReport r = s->rep;
    r.alive = LibThreadsAlive();
    c.fault("thread_switches", r.switches);
    c.fault("preemptions", r.preemptions);
    if (r.createFailed) { c.fault("thread_creation_refused", r.createFailed); }
    if (r.meetings) { c.fault("threads_at_one_place", r.meetings); }
    if (r.waits) { c.probe("threads_waited", r.waits); }
    if (r.created) { c.probe("threads_of_the_library", r.created); }
    return r;
}

// Schedules: either few switches at arbitrary points (most ordering bugs need very few), or many short slices.
void GenSchedule(Rng& r, Trace& t, bool thorough, int64_t typical)
{
    const int style = static_cast<int>(r.below(4));
    const int n = style == 0 ? static_cast<int>(r.range(2, 6)) : static_cast<int>(r.range(4, thorough ? 200 : 60));
    for (int i = 0; i < n; ++i)
    {
        int64_t len;
        if (style == 0) { len = r.range(1, std::max<int64_t>(2, typical)); }
        else if (style == 1) { len = r.range(1, 12); }
        else { len = 1 + static_cast<int64_t>(r.below(1ull << r.range(0, 12))); }
        t.add("slice", {static_cast<int64_t>(r.below(64)), len});
    }
    if (r.chance(1, 2)) { t.add("meet", {static_cast<int64_t>(1 + r.below(1u << 30)), r.pick<int64_t>({30, 100, 300, 1000})}); }
    if (style) { t.add("tail", {static_cast<int64_t>(1 + r.below(1u << 30)), r.range(6, 14)}); }
}
ThreadPlan PlanOf(const Trace& t)
{
    ThreadPlan p;
    for (auto& o : t.ops)
    {
        if (o.k == "slice") { p.slices.push_back({o.at(0), o.at(1, 1)}); }
        if (o.k == "meet")
        {
            p.meetSeed = static_cast<uint64_t>(o.at(0));
            p.meetMod = static_cast<uint64_t>(std::max<int64_t>(0, o.at(1)));
        }
        if (o.k == "tail")
        {
            p.tailSeed = static_cast<uint64_t>(o.at(0));
            p.tailBits = std::min<int64_t>(30, std::max<int64_t>(0, o.at(1)));
        }
    }
    return p;
}

namespace {
template <typename F> F Real(const char* n, const char* ver = nullptr)
{
    void* p = ver ? dlvsym(RTLD_NEXT, n, ver) : dlsym(RTLD_NEXT, n);
    if (p == nullptr) { p = dlsym(RTLD_NEXT, n); }
    if (p == nullptr) { _exit(88); }
    return reinterpret_cast<F>(p);
}
int Take(const void* m, bool recursive, bool errorcheck, const char* why, bool timed = false)
{
    SyncPoint();
    {
        Outside o;
        Lock& l = Locks()[m];
        if (l.owner == cur)
        {
            if (recursive)
            {
                ++l.depth;
                return 0;
            }
            if (errorcheck) { return EDEADLK; }
        }
    }
    const bool got = Await(why, [m] {
        Lock& l = Locks()[m];
        return l.owner == nullptr && l.readers == 0;
    }, timed);
    if (!got) { return ETIMEDOUT; }
    Outside o;
    Lock& l = Locks()[m];
    l.owner = cur;
    l.depth = 1;
    return 0;
}
void Release(const void* m)
{
    {
        Outside o;
        auto it = Locks().find(m);
        if (it != Locks().end())
        {
            Lock& l = it->second;
            if (l.owner == cur)
            {
                if (--l.depth == 0) { l.owner = nullptr; }
            }
            else if (l.readers > 0) { --l.readers; }
            if (l.owner == nullptr && l.readers == 0) { Locks().erase(it); }
        }
    }
    SyncPoint();
}
bool Recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
bool Checking(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK; }
} // namespace
} // namespace sim

using namespace sim;

// (no initialised statics here: their guards are among the interposed functions)
#define REALV(ret, name, ver, ...)                                                                                                                    \
    static ret (*real)(__VA_ARGS__) = nullptr;                                                                                                        \
    if (real == nullptr) { real = Real<ret (*)(__VA_ARGS__)>(#name, ver); }
#define REAL(ret, name, ...) REALV(ret, name, nullptr, __VA_ARGS__)

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (cur) { return Take(m, Recursive(m), Checking(m), "a mutex"); }
    REAL(int, pthread_mutex_lock, pthread_mutex_t*);
    return real(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) noexcept
{
    if (cur) { return Take(m, Recursive(m), Checking(m), "a mutex", true); }
    REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const timespec*);
    return real(m, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) noexcept
{
    if (cur) { return Take(m, Recursive(m), Checking(m), "a mutex", true); }
    REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const timespec*);
    return real(m, c, ts);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (cur)
    {
        SyncPoint();
        Outside o;
        Lock& l = Locks()[m];
        if (l.owner == cur && Recursive(m))
        {
            ++l.depth;
            return 0;
        }
        if (l.owner || l.readers) { return EBUSY; }
        l.owner = cur;
        l.depth = 1;
        return 0;
    }
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (cur)
    {
        Release(m);
        return 0;
    }
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
    if (cur) { return Take(m, false, true, "a read-write lock"); }
    REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
    return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    if (cur)
    {
        SyncPoint();
        {
            Outside o;
            if (Locks()[m].owner == cur) { return EDEADLK; }
        }
        Await("a read-write lock", [m] { return Locks()[m].owner == nullptr; });
        Outside o;
        ++Locks()[m].readers;
        return 0;
    }
    REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
    return real(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept
{
    if (cur)
    {
        SyncPoint();
        Outside o;
        if (Locks()[m].owner) { return EBUSY; }
        ++Locks()[m].readers;
        return 0;
    }
    REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
    return real(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept
{
    if (cur)
    {
        SyncPoint();
        Outside o;
        Lock& l = Locks()[m];
        if (l.owner || l.readers) { return EBUSY; }
        l.owner = cur;
        l.depth = 1;
        return 0;
    }
    REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
    return real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    if (cur)
    {
        Release(m);
        return 0;
    }
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
    return real(m);
}

static int CondWait(pthread_cond_t* cv, pthread_mutex_t* m, bool timed)
{
    {
        Outside o;
        Conds()[cv].push_back(cur);
        auto it = Locks().find(m);
        if (it != Locks().end() && it->second.owner == cur) { Locks().erase(it); }
    }
    SimThread* me = cur;
    const bool ok = Await("a condition", [cv, me] {
        auto& w = Conds()[cv];
        return std::find(w.begin(), w.end(), me) == w.end();
    }, timed);
    {
        Outside o;
        auto& w = Conds()[cv];
        w.erase(std::remove(w.begin(), w.end(), me), w.end());
    }
    Take(m, Recursive(m), Checking(m), "a mutex (after a condition)");
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m)
{
    if (cur) { return CondWait(cv, m, false); }
    REALV(int, pthread_cond_wait, "GLIBC_2.3.2", pthread_cond_t*, pthread_mutex_t*);
    return real(cv, m);
}
int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const timespec* ts)
{
    if (cur) { return CondWait(cv, m, true); }
    REALV(int, pthread_cond_timedwait, "GLIBC_2.3.2", pthread_cond_t*, pthread_mutex_t*, const timespec*);
    return real(cv, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t c, const timespec* ts)
{
    if (cur) { return CondWait(cv, m, true); }
    REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
    return real(cv, m, c, ts);
}
int pthread_cond_signal(pthread_cond_t* cv) noexcept
{
    if (cur)
    {
        {
            Outside o;
            auto& w = Conds()[cv];
            if (!w.empty()) { w.erase(w.begin()); }
        }
        SyncPoint();
        return 0;
    }
    REALV(int, pthread_cond_signal, "GLIBC_2.3.2", pthread_cond_t*);
    return real(cv);
}
int pthread_cond_broadcast(pthread_cond_t* cv) noexcept
{
    if (cur)
    {
        {
            Outside o;
            Conds()[cv].clear();
        }
        SyncPoint();
        return 0;
    }
    REALV(int, pthread_cond_broadcast, "GLIBC_2.3.2", pthread_cond_t*);
    return real(cv);
}

int pthread_once(pthread_once_t* once, void (*init)(void))
{
    if (cur == nullptr)
    {
        REAL(int, pthread_once, pthread_once_t*, void (*)(void));
        return real(once, init);
    }
    volatile pthread_once_t* o = once;
    SyncPoint();
    for (;;)
    {
        if (*o & 2) { return 0; }
        if (*o == 0) { break; }
        Await("a call_once in progress", [o] { return *o != 1; });
    }
    *o = 1;
    try
    {
        init();
    }
    catch (...)
    {
        *o = 0;
        throw;
    }
    *o = 2;
    SyncPoint();
    return 0;
}

// guard layout of the Itanium ABI: byte 0 done; byte 1 is ours while initialisation is in progress
int __cxa_guard_acquire(int64_t* g)
{
    if (cur == nullptr)
    {
        REAL(int, __cxa_guard_acquire, int64_t*);
        return real(g);
    }
    volatile unsigned char* b = reinterpret_cast<volatile unsigned char*>(g);
    SyncPoint();
    for (;;)
    {
        if (b[0]) { return 0; }
        if (b[1] == 0) { break; }
        Await("the initialisation of a static variable", [b] { return b[1] == 0; });
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(int64_t* g) noexcept
{
    if (cur == nullptr)
    {
        REAL(void, __cxa_guard_release, int64_t*);
        real(g);
        return;
    }
    volatile unsigned char* b = reinterpret_cast<volatile unsigned char*>(g);
    b[1] = 0;
    b[0] = 1;
    SyncPoint();
}
void __cxa_guard_abort(int64_t* g) noexcept
{
    if (cur == nullptr)
    {
        REAL(void, __cxa_guard_abort, int64_t*);
        real(g);
        return;
    }
    volatile unsigned char* b = reinterpret_cast<volatile unsigned char*>(g);
    b[1] = 0;
    SyncPoint();
}

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) noexcept
{
    if (cur == nullptr) { return __interceptor_pthread_create(th, attr, fn, arg); }
    {
        Outside o;
        const uint64_t n = g_s->creations++;
        if (g_s->plan->createFailAt >= 0 && n == static_cast<uint64_t>(g_s->plan->createFailAt))
        {
            g_s->rep.createFailed++;
            return EAGAIN;
        }
        auto* t = new SimThread();
        t->lib = true;
        t->fn = fn;
        t->arg = arg;
        const int rc = Start(t);
        if (rc) { return rc; }
        g_s->rep.created++;
        *th = t->handle;
    }
    SyncPoint();
    return 0;
}
int pthread_join(pthread_t th, void** ret)
{
    if (cur)
    {
        SimThread* t = nullptr;
        for (auto* x : g_s->all)
        {
            if (pthread_equal(x->handle, th) && x->lib) { t = x; }
        }
        if (t) { Await("the end of another thread", [t] { return t->st == DONE; }); }
    }
    return __interceptor_pthread_join(th, ret);
}
int sched_yield(void) noexcept
{
    if (cur)
    {
        ++g_steps;
        Preempt();
        return 0;
    }
    REAL(int, sched_yield, void);
    return real();
}
int nanosleep(const timespec* a, timespec* b)
{
    if (cur)
    {
        ++g_steps;
        Preempt();
        return 0;
    }
    REAL(int, nanosleep, const timespec*, timespec*);
    return real(a, b);
}
int usleep(useconds_t us)
{
    if (cur)
    {
        ++g_steps;
        Preempt();
        return 0;
    }
    REAL(int, usleep, useconds_t);
    return real(us);
}
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b)
{
    if (cur)
    {
        ++g_steps;
        Preempt();
        return 0;
    }
    REAL(int, clock_nanosleep, clockid_t, int, const timespec*, timespec*);
    return real(c, f, a, b);
}
} // extern "C"

// waiting for futures
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool timed, chrono::seconds s, chrono::nanoseconds ns)
{
    if (cur == nullptr)
    {
        using F = bool (*)(void*, unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
        static F real = nullptr;
        if (real == nullptr) { real = Real<F>("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE"); }
        return real(this, addr, val, timed, s, ns);
    }
    SyncPoint();
    volatile unsigned* a = addr;
    return Await("a future", [a, val] { return *a != val; }, timed);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool timed, chrono::seconds s, chrono::nanoseconds ns)
{
    if (cur == nullptr)
    {
        using F = bool (*)(void*, unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
        static F real = nullptr;
        if (real == nullptr) { real = Real<F>("_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE"); }
        return real(this, addr, val, timed, s, ns);
    }
    SyncPoint();
    volatile unsigned* a = addr;
    return Await("a future", [a, val] { return *a != val; }, timed);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr)
{
    if (cur == nullptr)
    {
        using F = void (*)(unsigned*);
        static F real = nullptr;
        if (real == nullptr) { real = Real<F>("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj"); }
        real(addr);
        return;
    }
    SyncPoint();
}
} // namespace std
