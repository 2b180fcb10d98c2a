// Deterministic thread scheduler: simulated threads are real threads of which exactly one runs at any time. Who runs,
// and for how many basic blocks, is decided by the trace. Every way a thread can wait (mutexes, read-write locks,
// condition variables, once-flags, static initialisation, futures, joins, sleeps) goes through it; see sched.cpp.
#pragma once
#include "core.hpp"

#include <functional>
#include <vector>

namespace sim {
struct Slice
{
    int64_t pick; // which of the runnable threads goes on
    int64_t len;  // for how many steps (basic blocks and synchronisation calls), unless it has to wait earlier
};
struct ThreadPlan
{
    std::vector<Slice> slices;     // afterwards the tail: pseudo-random slices of up to 2^tailBits steps, or without
    uint64_t tailSeed = 0;         // a tail (0) round robin with long slices
    int64_t tailBits = 0;
    // Every meetMod-th basic block (chosen by the seed) is a meeting place: a thread that gets there waits until another
    // one gets there too (or nothing else can go on), then they go on in very short slices.
    uint64_t meetSeed = 0, meetMod = 0;
    int64_t createFailAt = -1;     // the n-th thread creation by the library is refused (EAGAIN)
    uint64_t stepLimit = 60000000; // more steps than this: no progress
    const char* prefix = "";       // property id put in front of "deadlock" and "livelock"
};
struct ThreadReport
{
    uint64_t switches = 0, preemptions = 0, waits = 0, meetings = 0, created = 0, createFailed = 0;
    size_t alive = 0; // threads created by the library that had not ended when the last body ended
};
// Runs the bodies as simulated threads until all have ended. A Violation thrown by a body ends the run and is
// thrown from here. Only for scenarios that are isolated().
ThreadReport RunThreads(Ctx& c, const std::vector<std::function<void()>>& bodies, const ThreadPlan& plan);
bool InSimThread();
// threads created by the library that have not ended yet
size_t LibThreadsAlive();
// a schedule as operations of a trace, and back
void GenSchedule(Rng& r, Trace& t, bool thorough, int64_t typicalSteps);
ThreadPlan PlanOf(const Trace& t);
extern bool g_threaded;
} // namespace sim
