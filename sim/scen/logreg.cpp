// C18: threads that register loggers, create components, add sinks and change levels all at once, from a cold or a warm
// process; afterwards every name has exactly one logger, and everybody has it.
#include "../sched.hpp"
#include "framing.hpp"

#include "novatel_edie/common/logger.hpp"
#include "novatel_edie/decoders/oem/commander.hpp"
#include "novatel_edie/decoders/oem/file_parser.hpp"
#include "novatel_edie/decoders/oem/filter.hpp"
#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"
#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"

#include <fcntl.h>
#include <spdlog/sinks/null_sink.h>
#include <unistd.h>

namespace {
using sim::Ctx;
using sim::Lib;
using sim::Op;
using sim::Rng;
using sim::Trace;
using namespace novatel::edie;
using LogPtr = std::shared_ptr<spdlog::logger>;

enum Act
{
    A_REGISTER,
    A_COMPONENT,
    A_LEVEL,
    A_SINK,
    A_ROOTSINK,
    A_INIT,
    A_LOG,
    A_N
};
constexpr int kComponents = 11;

struct Registry : sim::Scenario
{
    bool isolated() const override { return true; }
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        const int n = static_cast<int>(r.range(2, thorough ? 6 : 4));
        t.cfg["n"] = n;
        t.cfg["cold"] = static_cast<int64_t>(r.below(3)); // 0 root logger known; 1 not yet; 2 and logging switched on
        const int names = static_cast<int>(r.range(1, 4));
        const int acts = static_cast<int>(r.range(2, thorough ? 40 : 24));
        const bool sinks = r.chance(1, 2);
        for (int i = 0; i < acts; ++i)
        {
            const int th = i < n ? i : static_cast<int>(r.below(static_cast<uint64_t>(n)));
            const size_t k = r.weighted({8, 6, 1, sinks ? 1u : 0u, sinks ? 1u : 0u, 1, 2});
            int64_t arg = 0;
            switch (k)
            {
            case A_REGISTER: arg = r.chance(1, 12) ? 99 : static_cast<int64_t>(r.below(static_cast<uint64_t>(names))); break;
            case A_COMPONENT: arg = static_cast<int64_t>(r.below(kComponents)); break;
            default: arg = static_cast<int64_t>(r.below(16)); break;
            }
            t.add("act", {th, static_cast<int64_t>(k), arg});
        }
        if (r.chance(1, 4)) { t.add("shutdown"); }
        sim::GenSchedule(r, t, thorough, 20000);
    }

    struct Got
    {
        std::string name;
        LogPtr p;
    };
    struct Held
    {
        std::shared_ptr<void> keep;
    };
    template <typename T, typename... A> static void Component(std::vector<Got>& got, std::vector<std::shared_ptr<void>>& keep, A&&... a)
    {
        auto p = Lib([&] { return std::make_shared<T>(a...); });
        LogPtr l = p->GetLogger();
        got.push_back({l ? l->name() : std::string("?"), l});
        keep.push_back(p);
    }
    static void Do(const Op& o, std::vector<Got>& got, std::vector<std::shared_ptr<void>>& keep, Ctx& c)
    {
        using spdlog::level::level_enum;
        switch (o.at(1))
        {
        case A_REGISTER: {
            const std::string name = o.at(2) == 99 ? "root" : "edie_sim_" + std::to_string(o.at(2));
            got.push_back({name, Lib([&] { return o.at(0) % 2 ? Logger::RegisterLogger(name) : GetBaseLoggerManager()->RegisterLogger(name); })});
            break;
        }
        case A_COMPONENT:
            switch (o.at(2) % kComponents)
            {
            case 0: Component<oem::Framer>(got, keep); break;
            case 1: Component<oem::HeaderDecoder>(got, keep, MessageDatabase::Ptr()); break;
            case 2: Component<oem::MessageDecoder>(got, keep, MessageDatabase::Ptr()); break;
            case 3: Component<oem::Encoder>(got, keep, MessageDatabase::Ptr()); break;
            case 4: Component<oem::Parser>(got, keep); break;
            case 5: Component<oem::FileParser>(got, keep); break;
            case 6: Component<oem::Filter>(got, keep); break;
            case 7: Component<oem::Commander>(got, keep, MessageDatabase::Ptr()); break;
            case 8: Component<oem::RangeDecompressor>(got, keep, MessageDatabase::Ptr()); break;
            case 9: Component<oem::RxConfigHandler>(got, keep, MessageDatabase::Ptr()); break;
            default: Component<FramerManager>(got, keep, std::vector<std::string>{"OEM"}); break;
            }
            break;
        case A_LEVEL: Lib([&] { Logger::SetLoggingLevel(static_cast<level_enum>(o.at(2) % 7)); }); break;
        case A_SINK: { // on a logger no other thread uses
            const std::string name = "edie_sim_of_" + std::to_string(o.at(0));
            LogPtr l = Lib([&] { return Logger::RegisterLogger(name); });
            got.push_back({name, l});
            if (l) { Lib([&] { Logger::AddConsoleLogging(l); }); }
            c.fault("sink_added");
            break;
        }
        case A_ROOTSINK: {
            LogPtr l = Lib([&] { return Logger::RegisterLogger("root"); });
            got.push_back({"root", l});
            if (l) { Lib([&] { Logger::AddConsoleLogging(l, spdlog::level::off); }); }
            c.fault("sink_added_to_root");
            break;
        }
        case A_INIT: Lib([&] { Logger::InitLogger(); }); break;
        case A_LOG:
            if (!got.empty() && got.back().p && got.back().name != "root") { Lib([&] { got.back().p->info("simulated message {}", o.at(2)); }); }
            break;
        default: break;
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        const size_t n = static_cast<size_t>(std::min<int64_t>(16, std::max<int64_t>(1, t.get("n"))));
        if (t.get("cold"))
        {
            // as in a program that has not touched the library yet; what is logged goes nowhere
            const int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            close(nul);
            spdlog::drop("root");
            spdlog::set_level(t.get("cold") == 2 ? spdlog::level::debug : spdlog::level::off);
            c.fault("cold_start");
        }
        std::vector<std::vector<Got>> got(n);
        std::vector<std::vector<std::shared_ptr<void>>> keep(n);
        std::vector<LoggerManager*> managers(n, nullptr);
        std::vector<std::function<void()>> bodies;
        for (size_t i = 0; i < n; ++i)
        {
            bodies.push_back([&, i] {
                managers[i] = Lib([&] { return GetBaseLoggerManager(); });
                for (auto& o : t.ops)
                {
                    if (o.k != "act" || static_cast<size_t>(o.at(0)) % n != i) { continue; }
                    const size_t before = got[i].size();
                    try
                    {
                        Do(o, got[i], keep[i], c);
                    }
                    catch (const std::exception& e)
                    {
                        c.fail("C18:throws", std::string("registering while others do fails: ") + e.what());
                    }
                    ++c.calls;
                    for (size_t k = before; k < got[i].size(); ++k)
                    {
                        const Got& g = got[i][k];
                        c.ev("got", {static_cast<int64_t>(i)}, g.name);
                        c.check(g.p != nullptr, "C18:lost", "no logger was returned for '" + g.name + "'");
                        c.check(g.p->name() == g.name, "C18:wrong-name", "asked for '" + g.name + "', got '" + g.p->name() + "'");
                    }
                }
            });
        }
        sim::ThreadPlan plan = sim::PlanOf(t);
        plan.prefix = "C18:";
        const sim::ThreadReport rep = sim::RunThreads(c, bodies, plan);
        for (auto* m : managers) { c.check(m != nullptr && m == managers[0], "C18:two-managers", "two threads use different logger managers"); }
        std::map<std::string, LogPtr> one;
        size_t total = 0, threadsOfName = 0;
        for (size_t i = 0; i < n; ++i)
        {
            std::set<std::string> mine;
            for (auto& g : got[i])
            {
                auto it = one.emplace(g.name, g.p).first;
                c.check(it->second == g.p, "C18:two-loggers", "two different loggers were given out for '" + g.name + "'");
                ++total;
                if (mine.insert(g.name).second) { ++threadsOfName; }
            }
        }
        LogPtr root = Lib([&] { return spdlog::get("root"); });
        for (auto& [name, p] : one)
        {
            LogPtr reg = Lib([&] { return spdlog::get(name); });
            c.check(reg == p, "C18:not-registered", "the logger given out for '" + name + "' is " + (reg ? "not the registered one" : "not registered"));
            LogPtr again = Lib([&] { return GetBaseLoggerManager()->RegisterLogger(name); });
            c.check(again == p, "C18:not-idempotent", "registering '" + name + "' again gives another logger");
            c.check(root != nullptr, "C18:root-lost", "there is no root logger");
            c.check(p->level() == root->level(), "C18:level", "a change of the level did not reach '" + name + "': it has level " + std::to_string(p->level()) + ", the root logger " + std::to_string(root->level()));
            // its sinks are the root logger's of the time of registration
            auto &a = p->sinks(), &b = root->sinks();
            size_t common = 0;
            while (common < a.size() && common < b.size() && a[common] == b[common]) { ++common; }
            if (name.compare(0, 12, "edie_sim_of_") == 0) { continue; } // may have sinks of its own
            c.check(common == a.size() && (!t.get("cold") || b.empty() || !a.empty()), "C18:sinks", "'" + name + "' has " + std::to_string(a.size()) + " sinks, of which " + std::to_string(common) + " are the root logger's (it has " + std::to_string(b.size()) + ")");
        }
        c.check(rep.alive == 0, "C18:thread-left", "a thread of the library is left running");
        c.nontrivial = rep.switches > 2 && threadsOfName > one.size();
        // components end while others are kept
        for (size_t i = 0; i < n; ++i)
        {
            Lib([&] { keep[i].clear(); });
        }
        for (auto& o : t.ops)
        {
            if (o.k != "shutdown") { continue; }
            c.fault("logging_shut_down");
            Lib([&] { Logger::Shutdown(); });
            LogPtr p = Lib([&] { return Logger::RegisterLogger("edie_sim_0"); });
            LogPtr q = Lib([&] { return Logger::RegisterLogger("edie_sim_0"); });
            c.check(p && p == q && p == spdlog::get("edie_sim_0"), "C18:after-shutdown", "after a shutdown, registering a logger does not work");
        }
    }
};
SIM_SCENARIO("C18", Registry)
} // namespace
