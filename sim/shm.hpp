// Shared memory between the supervising process and its simulation workers.
#pragma once
#include <atomic>
#include <cstdint>

namespace sim {
struct Counter
{
    char name[56];
    uint64_t n;
};
struct WorkerSlot
{
    volatile uint64_t current;  // index of the run in progress (+1), 0: idle
    volatile uint64_t next;     // next index to run
    volatile uint64_t done;     // runs completed
    volatile uint64_t nontrivial;
    volatile uint64_t steps, calls, bytes, detChecks;
    volatile uint64_t lastHash; // of the last isolated run
    volatile uint32_t died;     // set by Die
    char cls[128];
    char msg[2048];
    Counter faults[64];
    Counter probes[192];
};
struct Shm
{
    static constexpr size_t kEdges = 1 << 18;
    static constexpr size_t kSet = 1 << 21;
    WorkerSlot w[64];
    unsigned char edges[kEdges];
    std::atomic<uint64_t> setRuns[kSet];   // distinct non-trivial traces (event hashes)
    std::atomic<uint64_t> setStates[kSet]; // distinct coverage signatures
    std::atomic<uint64_t> nRuns, nStates;
};
extern Shm* g_shm;
extern WorkerSlot* g_slot;
// Ends the current simulation process, recording a violation class for the supervisor.
[[noreturn]] void Die(const char* cls, const char* msg);
uint32_t GuardCount();
void CoverageReset();
uint64_t CoverageSignature();
} // namespace sim
