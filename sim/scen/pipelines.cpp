// C17: several worlds, each a pipeline with its own link, faults and oracle (the other scenarios), run on simulated
// threads of one process and share message databases, loggers and every static of the library. Each must go exactly
// as it goes when it runs alone.
#include "../msgdb.hpp"
#include "../sched.hpp"

namespace {
using sim::Ctx;
using sim::Lib;
using sim::Op;
using sim::Rng;
using sim::Trace;

// worlds whose history is a function of their trace and that leave a shared database alone
struct World
{
    const char* name;
    unsigned weight;
    bool db;
};
const World kWorlds[] = {{"C21", 5, true},  {"C10", 4, true},  {"C11", 3, true},  {"C09", 3, true},  {"C13-parser", 2, true}, {"C13-header", 2, true}, {"C19-encode", 2, true},
                         {"C20", 2, true},  {"C14", 3, true},  {"C12", 2, false}, {"C22", 1, false}, {"C01", 2, false},        {"C04", 2, false},        {"C06-framing", 1, false},
                         {"C07-framing", 1, false}, {"C08", 2, false}};

std::unique_ptr<sim::Scenario> Make(const std::string& n)
{
    for (auto& s : sim::Scenarios())
    {
        if (s.name == n) { return s.make(); }
    }
    return nullptr;
}
size_t Pick(Rng& r)
{
    unsigned tot = 0;
    for (auto& w : kWorlds) { tot += w.weight; }
    uint64_t k = r.below(tot);
    size_t i = 0;
    while (k >= kWorlds[i].weight) { k -= kWorlds[i++].weight; }
    return i;
}

struct Pipelines : sim::Scenario
{
    bool isolated() const override { return true; }
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        const int n = static_cast<int>(r.range(2, thorough ? 4 : 3));
        const bool same = r.chance(1, 2);
        size_t w = Pick(r);
        t.cfg["n"] = n;
        const int64_t db = static_cast<int64_t>(r.below(60));
        for (int i = 0; i < n; ++i)
        {
            if (i && !same) { w = Pick(r); }
            Trace s;
            s.scenario = kWorlds[w].name;
            // large worlds cost time and add no kinds of interleaving: prefer short ones
            for (int k = 0; k < 6; ++k)
            {
                s.cfg.clear();
                s.ops.clear();
                Make(s.scenario)->gen(r, s, false);
                if (s.ops.size() <= 40) { break; }
            }
            if (s.cfg.count("db") && r.chance(3, 4)) { s.cfg["db"] = db; }
            const std::string p = std::to_string(i) + "/";
            t.cfg[p] = static_cast<int64_t>(w);
            for (auto& [k, v] : s.cfg) { t.cfg[p + k] = v; }
            for (auto& o : s.ops) { t.add(p + o.k, o.a, o.b); }
        }
        sim::GenSchedule(r, t, thorough, 400000);
    }
    void run(const Trace& t, Ctx& c) override
    {
        const int n = static_cast<int>(std::min<int64_t>(8, t.get("n")));
        std::vector<Trace> sub(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i)
        {
            const std::string p = std::to_string(i) + "/";
            Trace& s = sub[static_cast<size_t>(i)];
            s.scenario = kWorlds[static_cast<size_t>(t.get(p)) % std::size(kWorlds)].name;
            for (auto& [k, v] : t.cfg)
            {
                if (k.size() > p.size() && k.compare(0, p.size(), p) == 0) { s.cfg[k.substr(p.size())] = v; }
            }
            for (auto& o : t.ops)
            {
                if (o.k.compare(0, p.size(), p) == 0) { s.ops.push_back(Op{o.k.substr(p.size()), o.a, o.b}); }
            }
        }
        struct R
        {
            std::string cls, msg, log;
            uint64_t hash = 0, calls = 0, bytes = 0;
            bool same(const R& o) const { return cls == o.cls && hash == o.hash; }
        };
        auto go = [&](const Trace& s, R& r) {
            Ctx x;
            x.verbose = true;
            try
            {
                Make(s.scenario)->run(s, x);
            }
            catch (const sim::Violation& v)
            {
                r.cls = v.cls;
                r.msg = v.msg;
            }
            catch (const std::exception& e)
            {
                r.cls = "exception";
                r.msg = e.what();
            }
            r.hash = x.hash;
            r.log = std::move(x.log);
            r.calls = x.calls;
            r.bytes = x.simBytes;
        };
        std::vector<R> together(sub.size()), alone(sub.size());
        std::vector<std::function<void()>> bodies;
        for (size_t i = 0; i < sub.size(); ++i)
        {
            bodies.push_back([&, i] { go(sub[i], together[i]); });
        }
        sim::ThreadPlan plan = sim::PlanOf(t);
        plan.prefix = "C17:";
        plan.stepLimit = 2000000000ull;
        mdb::ShareLoads(true);
        const sim::ThreadReport rep = sim::RunThreads(c, bodies, plan);
        mdb::ShareLoads(false);
        for (size_t i = 0; i < sub.size(); ++i)
        {
            go(sub[i], alone[i]);
            c.ev(sub[i].scenario, {static_cast<int64_t>(together[i].hash), static_cast<int64_t>(together[i].calls)}, together[i].cls);
            if (!together[i].same(alone[i]))
            {
                // where the two histories part
                const std::string &a = together[i].log, &b = alone[i].log;
                size_t k = 0;
                while (k < a.size() && k < b.size() && a[k] == b[k]) { ++k; }
                size_t from = a.rfind('\n', k ? k - 1 : 0);
                from = from == std::string::npos ? 0 : from + 1;
                c.fail("C17:interference", "pipeline " + std::to_string(i) + " (" + sub[i].scenario + ") goes differently beside the others than alone: together '" +
                                               sim::Printable(a.substr(from, 300), 300) + "'" + (together[i].cls.empty() ? "" : " [" + together[i].cls + ": " + together[i].msg.substr(0, 400) + "]") + ", alone '" +
                                               sim::Printable(b.size() > from ? b.substr(from, 300) : std::string(), 300) + "'" + (alone[i].cls.empty() ? "" : " [" + alone[i].cls + ": " + alone[i].msg.substr(0, 200) + "]"));
            }
            c.calls += together[i].calls;
            c.simBytes += together[i].bytes;
            c.probe(sub[i].scenario.c_str());
            if (!together[i].cls.empty()) { c.probe("both_failed"); }
        }
        c.check(rep.alive == 0, "C17:thread-left", "a thread of the library still runs after all pipelines have ended");
        c.nontrivial = rep.switches > 3;
    }
};
SIM_SCENARIO("C17", Pipelines)
} // namespace
