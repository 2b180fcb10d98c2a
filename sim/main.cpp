// Supervisor: seeded search over simulated executions in forked workers, replay, minimisation, evidence.
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <sanitizer/asan_interface.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "core.hpp"
#include "shm.hpp"

#include "novatel_edie/common/logger.hpp"

namespace sim {
Shm* g_shm = nullptr;
WorkerSlot* g_slot = nullptr;

void Die(const char* cls, const char* msg)
{
    if (g_slot)
    {
        std::strncpy(const_cast<char*>(g_slot->cls), cls, sizeof(g_slot->cls) - 1);
        std::strncpy(const_cast<char*>(g_slot->msg), msg, sizeof(g_slot->msg) - 1);
        g_slot->died = 1;
    }
    _exit(87);
}
} // namespace sim

extern "C" const char* __asan_default_options()
{
    return "exitcode=86:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:handle_segv=1:"
           "handle_sigfpe=1:print_legend=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=4:quarantine_size_mb=16:"
           "max_malloc_fill_size=0:allow_user_poisoning=1:detect_container_overflow=0:check_initialization_order=0:"
           "alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:handle_sigill=1:handle_sigbus=1:abort_on_error=0";
}

// Library frames only: the class of a memory error is its kind and the innermost function of the code under test, so
// that it is stable when lines move.
static std::string TopFrame(const std::string& rep)
{
    std::istringstream is(rep);
    std::string line;
    while (std::getline(is, line))
    {
        size_t h = line.find('#');
        size_t in = line.find(" in ");
        if (h == std::string::npos || in == std::string::npos) { continue; }
        if (line.find("/repo/") == std::string::npos) { continue; }
        std::string fn = line.substr(in + 4);
        size_t cut = fn.find_first_of("(< ");
        fn = fn.substr(0, cut);
        size_t c2 = fn.rfind("::");
        if (c2 != std::string::npos) { fn = fn.substr(c2 + 2); }
        return fn;
    }
    return "?";
}

namespace {
using namespace sim;
struct Options
{
    std::string property, scenario, out = "evidence", replays = "replays", known, tier = "quick", rule;
    uint64_t seed = 1, count = 1000;
    double budget = 60;
    int jobs = 8;
    bool verbose = false;
};

struct Result
{
    bool violated = false;
    std::string cls, msg, log, report;
    uint64_t hash = 0;
};

uint64_t SeedFor(const std::string& scenario, uint64_t seed, uint64_t index)
{
    uint64_t x = Fnv(scenario) ^ (seed * 0x9E3779B97F4A7C15ull) ^ (index * 0xD1B54A32D192ED03ull);
    x ^= x >> 32;
    x *= 0xD6E8FEB86659FD93ull;
    x ^= x >> 32;
    return x;
}

std::unique_ptr<Scenario> Make(const std::string& name)
{
    for (auto& s : Scenarios())
    {
        if (s.name == name) { return s.make(); }
    }
    std::fprintf(stderr, "unknown scenario %s\n", name.c_str());
    std::exit(2);
}

void ResetSeams()
{
    g_fill = -1;
    g_allocFailAt = -1;
    g_allocFailCount = 1;
    g_allocCount = 0;
    g_allocFired = false;
    g_stepLimit = ~0ull;
    g_yieldAt = ~0ull;
    CoverageReset();
}

// Run one trace in this process.
Result RunHere(const Trace& t, Ctx& c)
{
    Result r;
    auto s = Make(t.scenario);
    ResetSeams();
    try
    {
        s->run(t, c);
    }
    catch (const Violation& v)
    {
        r.violated = true;
        r.cls = v.cls;
        r.msg = v.msg;
    }
    catch (const std::exception& e)
    {
        r.violated = true;
        r.cls = "escaped-exception";
        r.msg = std::string("exception escaped from the scenario: ") + e.what();
    }
    g_inLib = 0;
    g_fill = -1;
    g_allocFailAt = -1;
    r.hash = c.hash;
    r.log = c.log;
    return r;
}

std::string ReadFd(int fd)
{
    std::string o;
    char buf[65536];
    lseek(fd, 0, SEEK_SET);
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0) { o.append(buf, n); }
    return o;
}

std::string CrashClass(int status, const std::string& report, const WorkerSlot& slot, std::string& msg)
{
    if (slot.died)
    {
        msg = const_cast<const char*>(slot.msg);
        return const_cast<const char*>(slot.cls);
    }
    size_t p = report.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos)
    {
        std::string k = report.substr(p + 25);
        k = k.substr(0, k.find_first_of(" \n("));
        msg = "AddressSanitizer " + k + " in " + TopFrame(report.substr(p));
        return "memory:" + k + ":" + TopFrame(report.substr(p));
    }
    if (report.find("Assertion '") != std::string::npos || report.find("Assertion `") != std::string::npos)
    {
        size_t a = report.find("Assertion");
        msg = report.substr(a, 300);
        size_t nl = msg.find('\n');
        if (nl != std::string::npos) { msg.resize(nl); }
        return "memory:assertion";
    }
    if (report.find("terminate called") != std::string::npos)
    {
        msg = report.substr(report.find("terminate called"), 300);
        return "terminate";
    }
    if (WIFSIGNALED(status))
    {
        msg = std::string("killed by signal ") + std::to_string(WTERMSIG(status));
        return "crash:signal" + std::to_string(WTERMSIG(status));
    }
    msg = "exited with status " + std::to_string(WEXITSTATUS(status));
    return "crash:exit";
}

// Run one trace in a forked child; crashes, memory errors and livelocks become results.
Result RunForked(const Trace& t, bool verbose, double timeout = 120)
{
    static WorkerSlot* slot = nullptr;
    if (!slot)
    {
        slot = static_cast<WorkerSlot*>(mmap(nullptr, sizeof(WorkerSlot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    std::memset(const_cast<WorkerSlot*>(slot), 0, sizeof *slot);
    int pfd[2];
    if (pipe(pfd)) { std::exit(2); }
    int efd = memfd_create("err", 0);
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(pfd[0]);
        dup2(efd, 2);
        g_slot = slot;
        g_shm = nullptr;
        Ctx c;
        c.verbose = verbose;
        Result r = RunHere(t, c);
        std::string o = std::string(r.violated ? "V" : "O") + "\n" + std::to_string(r.hash) + "\n" + r.cls + "\n" + std::to_string(r.msg.size()) +
                        "\n" + r.msg + r.log;
        size_t off = 0;
        while (off < o.size())
        {
            ssize_t n = write(pfd[1], o.data() + off, o.size() - off);
            if (n <= 0) { break; }
            off += n;
        }
        _exit(0);
    }
    close(pfd[1]);
    std::string o;
    char buf[65536];
    auto t0 = std::chrono::steady_clock::now();
    bool hung = false;
    for (;;)
    {
        pollfd pf{pfd[0], POLLIN, 0};
        int k = poll(&pf, 1, 1000);
        if (k > 0)
        {
            ssize_t n = read(pfd[0], buf, sizeof buf);
            if (n <= 0) { break; }
            o.append(buf, n);
        }
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > timeout)
        {
            hung = true;
            kill(pid, SIGKILL);
            break;
        }
    }
    close(pfd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    Result r;
    r.report = ReadFd(efd);
    close(efd);
    if (hung)
    {
        r.violated = true;
        r.cls = "hang";
        r.msg = "no result within the wall-clock guard";
        return r;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !o.empty())
    {
        std::istringstream is(o);
        std::string v, h, cls, n;
        std::getline(is, v);
        std::getline(is, h);
        std::getline(is, cls);
        std::getline(is, n);
        size_t hdr = v.size() + h.size() + cls.size() + n.size() + 4;
        size_t mn = std::stoul(n);
        r.violated = v == "V";
        r.hash = std::stoull(h);
        r.cls = cls;
        r.msg = o.substr(hdr, mn);
        r.log = o.substr(hdr + mn);
        return r;
    }
    r.violated = true;
    r.cls = CrashClass(status, r.report, *slot, r.msg);
    r.hash = Fnv(r.cls);
    return r;
}

void AddCounter(Counter* table, size_t n, const std::string& name, uint64_t v)
{
    for (size_t i = 0; i < n; ++i)
    {
        if (table[i].name[0] == 0) { std::strncpy(table[i].name, name.c_str(), sizeof(table[i].name) - 1); }
        if (std::strncmp(table[i].name, name.c_str(), sizeof(table[i].name) - 1) == 0)
        {
            table[i].n += v;
            return;
        }
    }
}
bool SetInsert(std::atomic<uint64_t>* set, uint64_t v)
{
    if (v == 0) { v = 1; }
    size_t i = (v * 0x9E3779B97F4A7C15ull) >> 43; // top 21 bits
    for (size_t k = 0; k < 512; ++k)
    {
        std::atomic<uint64_t>& s = set[(i + k) & (Shm::kSet - 1)];
        uint64_t e = s.load(std::memory_order_relaxed);
        if (e == v) { return false; }
        if (e == 0)
        {
            if (s.compare_exchange_strong(e, v)) { return true; }
            if (e == v) { return false; }
        }
    }
    return false;
}

Trace Gen(const std::string& scenario, uint64_t seed, uint64_t index, bool thorough)
{
    Trace t;
    t.scenario = scenario;
    Rng r(SeedFor(scenario, seed, index));
    Make(scenario)->gen(r, t, thorough);
    return t;
}

void WriteFile(const std::string& path, const std::string& s)
{
    std::ofstream f(path, std::ios::binary);
    f << s;
}

// The class decides identity; "livelock"/"memory" classes compare exactly too.
bool Same(const Result& r, const std::string& cls) { return r.violated && r.cls == cls; }

Trace Minimise(Trace t, const std::string& cls, double budget)
{
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return budget - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    auto bad = [&](const Trace& c) { return Same(RunForked(c, false, 30), cls); };
    // 1. delete operations (ddmin)
    size_t n = 2;
    while (t.ops.size() >= 2 && left() > 0)
    {
        size_t chunk = (t.ops.size() + n - 1) / n;
        bool reduced = false;
        for (size_t s = 0; s < t.ops.size() && left() > 0; s += chunk)
        {
            Trace c = t;
            c.ops.erase(c.ops.begin() + s, c.ops.begin() + std::min(s + chunk, c.ops.size()));
            if (bad(c))
            {
                t = c;
                n = std::max<size_t>(n - 1, 2);
                reduced = true;
                break;
            }
        }
        if (!reduced)
        {
            if (chunk <= 1) { break; }
            n = std::min(n * 2, t.ops.size());
        }
    }
    // 2. shrink payloads and integers
    for (size_t i = 0; i < t.ops.size() && left() > 0; ++i)
    {
        for (size_t cut = t.ops[i].b.size() / 2; cut >= 1 && left() > 0; cut /= 2)
        {
            for (size_t s = 0; s + cut <= t.ops[i].b.size() && left() > 0;)
            {
                Trace c = t;
                c.ops[i].b.erase(s, cut);
                if (bad(c)) { t = c; }
                else { s += cut; }
            }
        }
        for (size_t k = 0; k < t.ops[i].a.size() && left() > 0; ++k)
        {
            for (int64_t v : {int64_t{0}, int64_t{1}, t.ops[i].a[k] / 2, t.ops[i].a[k] - 1})
            {
                if (t.ops[i].a[k] == v || (t.ops[i].a[k] >= 0 && v < 0)) { continue; }
                Trace c = t;
                c.ops[i].a[k] = v;
                if (bad(c)) { t = c; }
            }
        }
    }
    return t;
}

// One run in this process, with its accounting; a violation ends the process.
Result One(const Trace& t, WorkerSlot& s)
{
    Ctx c;
    Result r = RunHere(t, c);
    s.steps += g_steps;
    s.lastHash = r.hash;
    if (SetInsert(g_shm->setStates, CoverageSignature())) { g_shm->nStates++; }
    s.calls += c.calls;
    s.bytes += c.simBytes;
    for (auto& [k, v] : c.faults) { AddCounter(s.faults, 64, k, v); }
    for (auto& [k, v] : c.probes) { AddCounter(s.probes, 192, k, v); }
    if (c.nontrivial)
    {
        s.nontrivial++;
        if (SetInsert(g_shm->setRuns, r.hash)) { g_shm->nRuns++; }
    }
    // hand over to the supervisor, which re-runs the trace in a fresh child
    if (r.violated) { Die(r.cls.c_str(), r.msg.c_str()); }
    return r;
}

// Runs f in a child; if the child dies, so does this worker, in the same way.
template <typename F> void Isolated(F&& f)
{
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        f();
        _exit(0);
    }
    int status = 0;
    if (pid < 0) { Die("harness:fork", "cannot start a process for an isolated run"); }
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { return; }
    if (WIFSIGNALED(status))
    {
        signal(WTERMSIG(status), SIG_DFL);
        raise(WTERMSIG(status));
    }
    _exit(WIFEXITED(status) ? WEXITSTATUS(status) : 87);
}

void Worker(const Options& o, int id, int stride, uint64_t start, double deadlineMono)
{
    g_slot = &g_shm->w[id];
    WorkerSlot& s = *g_slot;
    s.died = 0;
    const bool isolated = Make(o.scenario)->isolated();
    for (uint64_t i = start; i < o.count; i += stride)
    {
        timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        if (ts.tv_sec + ts.tv_nsec * 1e-9 > deadlineMono) { break; }
        s.current = i + 1;
        s.next = i + stride;
        Trace t = Gen(o.scenario, o.seed, i, o.tier == "thorough");
        const bool twice = (i / static_cast<uint64_t>(stride)) % 16 == 0;
        if (isolated)
        {
            // a fresh process for every run; the accounting is done there, in the shared memory
            Isolated([&] { One(t, s); });
            s.done++;
            if (twice)
            {
                const uint64_t first = s.lastHash;
                Isolated([&] {
                    Ctx c2;
                    Result r2 = RunHere(t, c2);
                    s.lastHash = r2.hash;
                    if (r2.violated) { Die("harness:nondeterministic", ("two runs of one trace differ: " + r2.cls + " " + r2.msg).c_str()); }
                });
                s.detChecks++;
                if (first != s.lastHash) { Die("harness:nondeterministic", "two runs of one trace differ: hash"); }
            }
            continue;
        }
        Result r = One(t, s);
        s.done++;
        if (!r.violated && twice)
        {
            // same trace twice must give the same history
            Ctx c2;
            Result r2 = RunHere(t, c2);
            s.detChecks++;
            if (r2.violated || r2.hash != r.hash)
            {
                std::string why = r2.violated ? r2.cls + " " + r2.msg : "hash";
                Die("harness:nondeterministic", ("two runs of one trace differ: " + why).c_str());
            }
        }
    }
    s.current = 0;
    s.next = ~0ull;
    _exit(0);
}

std::string JsonStr(std::string_view s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += static_cast<char>(c);
        }
        else if (c == '\n') { o += "\\n"; }
        else if (c < 32 || c >= 127)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else { o += static_cast<char>(c); }
    }
    return o + "\"";
}

struct Found
{
    uint64_t index;
    std::string cls, msg;
    Trace t;
};

int Search(const Options& o)
{
    auto wall0 = std::chrono::steady_clock::now();
    g_shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    const double deadline = ts.tv_sec + ts.tv_nsec * 1e-9 + o.budget;
    std::vector<pid_t> pid(o.jobs, 0);
    std::vector<int> efd(o.jobs, -1);
    std::vector<uint64_t> lastCur(o.jobs, 0);
    std::vector<double> lastT(o.jobs, 0);
    std::vector<Found> found;
    std::map<std::string, int> clsCount;
    auto spawn = [&](int id, uint64_t start) {
        efd[id] = memfd_create("werr", 0);
        std::fflush(stdout);
        pid[id] = fork();
        if (pid[id] == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            dup2(efd[id], 2);
            Worker(o, id, o.jobs, start, deadline);
        }
        lastT[id] = 0;
    };
    for (int i = 0; i < o.jobs; ++i) { spawn(i, i); }
    int live = o.jobs;
    bool stop = false;
    while (live > 0)
    {
        int status;
        pid_t p = waitpid(-1, &status, WNOHANG);
        if (p == 0)
        {
            usleep(20000);
            clock_gettime(CLOCK_MONOTONIC, &ts);
            double now = ts.tv_sec + ts.tv_nsec * 1e-9;
            for (int i = 0; i < o.jobs; ++i)
            {
                if (pid[i] <= 0) { continue; }
                if (g_shm->w[i].current != lastCur[i] || lastT[i] == 0)
                {
                    lastCur[i] = g_shm->w[i].current;
                    lastT[i] = now;
                }
                else if (now - lastT[i] > 90) { kill(pid[i], SIGKILL); }
            }
            continue;
        }
        if (p < 0) { break; }
        for (int i = 0; i < o.jobs; ++i)
        {
            if (pid[i] != p) { continue; }
            std::string rep = ReadFd(efd[i]);
            close(efd[i]);
            WorkerSlot& s = g_shm->w[i];
            pid[i] = 0;
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
            {
                --live;
                break;
            }
            if (s.current == 0)
            {
                std::fprintf(stderr, "worker died outside a run: %s\n", rep.c_str());
                return 2;
            }
            Found f;
            f.index = s.current - 1;
            f.cls = CrashClass(status, rep, s, f.msg);
            f.t = Gen(o.scenario, o.seed, f.index, o.tier == "thorough");
            if (clsCount[f.cls]++ < 3) { found.push_back(f); }
            s.died = 0;
            uint64_t next = s.next;
            uint64_t total = 0;
            for (auto& [k, v] : clsCount) { total += v; }
            if (total >= 24) { stop = true; }
            if (!stop && next < o.count) { spawn(i, next); }
            else { --live; }
            break;
        }
    }

    // Gate: every candidate must reproduce in a fresh process, twice, with the same class.
    std::vector<Found> confirmed;
    int unreproducible = 0;
    std::set<std::string> seen;
    mkdir(o.replays.c_str(), 0755);
    std::vector<std::string> lines;
    for (auto& f : found)
    {
        if (seen.count(f.cls)) { continue; }
        if (f.cls == "harness:nondeterministic")
        {
            ++unreproducible;
            std::fprintf(stderr, "NONDETERMINISTIC seed=%llu index=%llu: %s\n", (unsigned long long)o.seed, (unsigned long long)f.index, f.msg.c_str());
            WriteFile(o.replays + "/" + o.property + "-nondet-" + std::to_string(f.index) + ".trace", Serialise(f.t));
            continue;
        }
        Result a = RunForked(f.t, false), b = RunForked(f.t, false);
        if (!Same(a, f.cls) || !Same(b, f.cls) || a.hash != b.hash)
        {
            ++unreproducible;
            std::fprintf(stderr, "NOT REPRODUCIBLE seed=%llu index=%llu class=%s now=%s/%s\n", (unsigned long long)o.seed,
                         (unsigned long long)f.index, f.cls.c_str(), a.cls.c_str(), b.cls.c_str());
            WriteFile(o.replays + "/" + o.property + "-unrepro-" + std::to_string(f.index) + ".trace", Serialise(f.t));
            continue;
        }
        seen.insert(f.cls);
        Trace m = seen.size() <= 3 ? Minimise(f.t, f.cls, 25) : f.t;
        Result r = RunForked(m, true);
        std::string path = o.replays + "/" + o.property + "-" + std::to_string(o.seed) + "-" + std::to_string(f.index) + ".trace";
        std::string head = "# replay of " + o.property + ": run it with  ./check.sh replay " + path + "\n#seed " + std::to_string(o.seed) +
                           " index " + std::to_string(f.index) + "\n#class " + f.cls + "\n#hash " + std::to_string(r.hash) + "\n";
        std::string msg = r.msg;
        std::replace(msg.begin(), msg.end(), '\n', ' ');
        head += "#message " + msg.substr(0, 1500) + "\n";
        WriteFile(path, head + Serialise(m));
        // fresh-process replay of the file that is reported
        Trace back;
        std::string ec, eh;
        {
            std::ifstream in(path, std::ios::binary);
            std::string text((std::istreambuf_iterator<char>(in)), {});
            if (!Parse(text, back, ec, eh)) { return 2; }
        }
        Result rr = RunForked(back, false);
        if (!Same(rr, f.cls) || rr.hash != r.hash)
        {
            ++unreproducible;
            std::fprintf(stderr, "REPLAY FILE DIFFERS %s\n", path.c_str());
            continue;
        }
        f.t = m;
        f.msg = r.msg;
        confirmed.push_back(f);
        lines.push_back("VIOLATION property=" + o.property + " replay=" + path);
        std::printf("%s\n  class: %s\n  what: %s\n  seed %llu index %llu, %zu operations after minimisation\n", lines.back().c_str(), f.cls.c_str(),
                    r.msg.c_str(), (unsigned long long)o.seed, (unsigned long long)f.index, m.ops.size());
        if (!r.report.empty()) { std::printf("%s\n", r.report.substr(0, 3000).c_str()); }
    }

    // Evidence
    uint64_t done = 0, nontriv = 0, steps = 0, calls = 0, bytes = 0, det = 0;
    std::map<std::string, uint64_t> faults, probes;
    for (int i = 0; i < o.jobs; ++i)
    {
        auto& s = g_shm->w[i];
        done += s.done;
        nontriv += s.nontrivial;
        steps += s.steps;
        calls += s.calls;
        bytes += s.bytes;
        det += s.detChecks;
        for (auto& c : s.faults)
        {
            if (c.name[0]) { faults[c.name] += c.n; }
        }
        for (auto& c : s.probes)
        {
            if (c.name[0]) { probes[c.name] += c.n; }
        }
    }
    uint64_t edges = 0;
    for (size_t i = 0; i < Shm::kEdges; ++i) { edges += g_shm->edges[i]; }
    const double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - wall0).count();
    std::string frag = "{\n";
    auto num = [&](const char* k, double v, bool comma = true) {
        char b[96];
        std::snprintf(b, sizeof b, "  \"%s\": %.15g%s\n", k, v, comma ? "," : "");
        frag += b;
    };
    frag += "  \"scenario\": " + JsonStr(o.scenario) + ",\n";
    num("runs", done);
    num("nontrivial", nontriv);
    num("distinct_nontrivial", g_shm->nRuns.load());
    num("distinct_states", g_shm->nStates.load());
    num("edges_reached", edges);
    num("edges_total", GuardCount());
    num("steps", steps);
    num("calls", calls);
    num("bytes", bytes);
    num("same_trace_twice_checks", det);
    num("unreproducible", unreproducible);
    num("violations", confirmed.size());
    num("seed", o.seed);
    num("wall_s", wall);
    auto dump = [&](const char* k, std::map<std::string, uint64_t>& m) {
        frag += std::string("  \"") + k + "\": {";
        bool first = true;
        for (auto& [n, v] : m)
        {
            frag += (first ? "" : ", ") + JsonStr(n) + ": " + std::to_string(v);
            first = false;
        }
        frag += "},\n";
    };
    dump("faults", faults);
    dump("probes", probes);
    frag += "  \"samples\": [";
    for (uint64_t i = 0, k = 0; i < 400 && k < 2; ++i)
    {
        std::string s = Serialise(Gen(o.scenario, o.seed, i, o.tier == "thorough"));
        if (s.size() > 6000 && i < 390) { continue; }
        frag += (k ? ", " : "") + JsonStr("seed " + std::to_string(o.seed) + " index " + std::to_string(i) + "\n" + s.substr(0, 6000));
        ++k;
    }
    frag += "],\n  \"violation_classes\": [";
    for (size_t i = 0; i < confirmed.size(); ++i) { frag += (i ? ", " : "") + JsonStr(confirmed[i].cls); }
    frag += "]\n}\n";
    WriteFile(o.out, frag);
    if (!confirmed.empty()) { return 1; }
    if (unreproducible) { return 3; }
    if (done == 0) { return 4; }
    return 0;
}

int Replay(const std::string& file, bool verbose)
{
    std::ifstream in(file, std::ios::binary);
    std::string text((std::istreambuf_iterator<char>(in)), {});
    Trace t;
    std::string ec, eh;
    if (!Parse(text, t, ec, eh))
    {
        std::fprintf(stderr, "cannot parse %s\n", file.c_str());
        return 2;
    }
    Result r = RunForked(t, verbose);
    if (verbose) { std::printf("%s", r.log.c_str()); }
    if (!r.report.empty() && verbose) { std::printf("%s\n", r.report.c_str()); }
    if (r.violated)
    {
        std::printf("REPLAY violated class=%s hash=%llu%s%s\n  %s\n", r.cls.c_str(), (unsigned long long)r.hash,
                    ec.empty() ? "" : (ec == r.cls ? " (recorded class)" : " (DIFFERENT class recorded)"),
                    eh.empty() ? "" : (eh == std::to_string(r.hash) ? " (recorded hash)" : " (different hash recorded)"), r.msg.c_str());
        return 1;
    }
    std::printf("REPLAY ok hash=%llu\n", (unsigned long long)r.hash);
    return 0;
}
} // namespace

int main(int argc, char** argv)
{
    // A fixed address-space layout keeps runs identical from process to process.
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !std::getenv("SIM_NO_REEXEC"))
    {
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1)
        {
            setenv("SIM_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    signal(SIGPIPE, SIG_IGN);
    // Quiet logger: the log text is not part of any property, its cost is.
    {
        auto root = std::make_shared<spdlog::logger>("root");
        root->set_level(spdlog::level::off);
        spdlog::register_logger(root);
        spdlog::set_level(spdlog::level::off);
    }
    std::string mode = argc > 1 ? argv[1] : "";
    Options o;
    std::vector<std::string> pos;
    for (int i = 2; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") { o.property = val(); }
        else if (a == "--scenario") { o.scenario = val(); }
        else if (a == "--seed") { o.seed = std::strtoull(val().c_str(), nullptr, 10); }
        else if (a == "--count") { o.count = std::strtoull(val().c_str(), nullptr, 10); }
        else if (a == "--budget") { o.budget = std::strtod(val().c_str(), nullptr); }
        else if (a == "--jobs") { o.jobs = std::atoi(val().c_str()); }
        else if (a == "--tier") { o.tier = val(); }
        else if (a == "--out") { o.out = val(); }
        else if (a == "--replays") { o.replays = val(); }
        else if (a == "-v") { o.verbose = true; }
        else { pos.push_back(a); }
    }
    if (mode == "search") { return Search(o); }
    if (mode == "replay") { return Replay(pos.at(0), o.verbose); }
    if (mode == "gen")
    {
        std::cout << Serialise(Gen(o.scenario, o.seed, std::strtoull(pos.at(0).c_str(), nullptr, 10), o.tier == "thorough"));
        return 0;
    }
    if (mode == "exec")
    {
        std::ifstream in(pos.at(0), std::ios::binary);
        std::string text((std::istreambuf_iterator<char>(in)), {});
        Trace t;
        std::string a, b;
        if (!Parse(text, t, a, b)) { return 2; }
        Ctx c;
        c.verbose = true;
        Result r = RunHere(t, c);
        std::cout << c.log << (r.violated ? "VIOLATED " + r.cls + " " + r.msg : std::string("ok")) << "\n";
        return r.violated;
    }
    if (mode == "minimise")
    {
        std::ifstream in(pos.at(0), std::ios::binary);
        std::string text((std::istreambuf_iterator<char>(in)), {});
        Trace t;
        std::string a, b;
        if (!Parse(text, t, a, b)) { return 2; }
        Result r = RunForked(t, false);
        if (!r.violated) { return 2; }
        std::cout << "#class " << r.cls << "\n" << Serialise(Minimise(t, r.cls, 120));
        return 0;
    }
    if (mode == "list")
    {
        for (auto& s : Scenarios()) { std::cout << s.name << "\n"; }
        return 0;
    }
    std::fprintf(stderr, "usage: sim search|replay|gen|exec|minimise|list ...\n");
    return 2;
}
