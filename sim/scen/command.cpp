// Commands typed by an operator (abbreviated ASCII) encoded for a receiver: the command part of C19 and of C26.
#include "traffic.hpp"

#include <algorithm>

#include "novatel_edie/decoders/oem/commander.hpp"

namespace {
using namespace cd;
using novatel::edie::oem::Commander;
using sim::Ctx;
using sim::Lib;
using sim::Op;
using sim::Rng;
using sim::Trace;
using OemEncoder = novatel::edie::oem::Encoder;
using Oem = novatel::edie::oem::MessageDecoder;

#define CLS(x) (history ? "C26:" x : "C19:" x)
int Mod(int64_t v, int n) { return static_cast<int>(((v % n) + n) % n); }
std::string Cut(const std::string& s) { return sim::Printable(s, 400); }
std::string StName(int st) { return st < 0 ? std::string("an exception") : std::string(novatel::edie::StatusToString(static_cast<STATUS>(st))); }

enum CmdKind
{
    CMD_GOOD,
    CMD_NOPARAM, // the name alone
    CMD_CUT,     // parameters end early
    CMD_MUTATED, // parameters damaged
    CMD_LONG,    // more text than any message may have
    CMD_UNKNOWN, // no such command
    CMD_N
};
struct Cmd
{
    std::string text;
    int kind = CMD_GOOD;
    const mdb::Msg* m = nullptr;
    std::string bin, asc; // what the receiver has to get
};
Cmd MakeCmd(const mdb::Db& db, const Op& o)
{
    Cmd x;
    Op e = o;
    x.m = &db.msgs[static_cast<uint64_t>(o.at(0)) % db.msgs.size()];
    e.a[1] = static_cast<int64_t>(x.m->defs.size() - 1); // the receiver's current definition
    e.a[3] = mdb::F_ABB;
    if (e.at(4) != K_BIG) { e.a[4] = K_VALID; }
    const Made m = MakeMsg(db, e);
    x.kind = Mod(o.at(6), CMD_N);
    Rng k(static_cast<uint64_t>(o.at(7)) + 77);
    const size_t nl = m.frame.find("\r\n");
    std::string params = m.frame.substr(nl + 2);
    params.resize(params.size() - 2);
    switch (k.below(3))
    {
    case 0: params += "\r\n"; break; // as typed
    case 1: // on one line
        for (size_t i = params.find("\r\n<"); i != std::string::npos; i = params.find("\r\n<")) { params.replace(i, 3, " "); }
        break;
    default: break;
    }
    // In front of the first parameter stands one blank.
    const size_t first = params.find_first_not_of("< ");
    if (first != std::string::npos && k.chance(2, 3)) { params.erase(0, first); }
    x.text = x.m->name + " " + params;
    switch (x.kind)
    {
    case CMD_GOOD: {
        mdb::Hdr h;
        h.id = x.m->id;
        h.port = 0xC0;
        h.tstat = 0;
        h.crc = static_cast<uint16_t>(x.m->latestCrc());
        x.bin = mdb::EncBin(x.m->latest(), m.row).size() > 65535 ? "" : mdb::Message(db, *x.m, x.m->latest(), h, m.row, mdb::F_BIN);
        x.asc = mdb::Message(db, *x.m, x.m->latest(), h, m.row, mdb::F_ASC);
        if (x.text.size() >= 0x8000) { x.kind = CMD_MUTATED; }
        break;
    }
    case CMD_NOPARAM: x.text = x.m->name + k.pick<std::string>({"", "", " ", "  ", "\r\n"}); break;
    case CMD_CUT: x.text.resize(k.below(x.text.size() + 1)); break;
    case CMD_MUTATED: {
        const std::string hurt = Hostile(m.frame, mdb::F_ABB, k, static_cast<int>(k.range(1, 4)));
        x.text = x.m->name + " " + hurt.substr(std::min(nl + 2, hurt.size()));
        break;
    }
    case CMD_LONG: {
        const size_t n = k.pick<size_t>({0x7FFE, 0x7FFF, 0x8000, 0x8001, 0x9000, 70000});
        const std::string unit = k.pick<std::string>({"x", "1 ", "\"", " ", "1.5 ", "AB ", "\"a b\" "});
        if (k.chance(1, 2)) { x.text = x.m->name + " "; }
        while (x.text.size() < n) { x.text += unit; }
        break;
    }
    default: x.text = k.pick<std::string>({"", " ", "NOSUCHCOMMAND", "NOSUCHCOMMAND 1 2", " " + x.text, x.text.substr(1), "\r\n", std::string(3, '\0')}); break;
    }
    return x;
}

struct Command : sim::Scenario
{
    bool history;
    explicit Command(bool h) : history(h) {}
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        t.cfg["way"] = static_cast<int64_t>(r.below(4));
        t.cfg["fill"] = r.pick<int64_t>({0x00, 0xFF, 0x41, 0x31, 0x20, 0x0D});
        const int n = static_cast<int>(history ? r.range(2, thorough ? 16 : 8) : r.range(1, thorough ? 5 : 3));
        const bool allGood = r.chance(1, 2);
        for (int i = 0; i < n; ++i)
        {
            if (history && r.chance(1, 3))
            {
                t.add("load", {static_cast<int64_t>(r.below(8)), static_cast<int64_t>(r.below(2))});
                continue;
            }
            auto a = RandomNums(r, mdb::F_ABB, {6, 1, 0, 0, 0});
            a.push_back(allGood || r.chance(1, 2) ? CMD_GOOD : static_cast<int64_t>(1 + r.below(CMD_N - 1)));
            a.push_back(static_cast<int64_t>(r.below(1u << 30)));
            a.push_back(static_cast<int64_t>(r.below(2)));
            t.add("cmd", a);
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        auto model = mdb::Make(static_cast<uint64_t>(t.get("db")));
        auto db = Lib([&] { return mdb::Load(*model); });
        sim::g_fill = static_cast<int>(t.get("fill") & 255);
        const int way = Mod(t.get("way"), history ? 2 : 4);
        std::unique_ptr<Commander> cmd;
        std::unique_ptr<Oem> dec;
        std::unique_ptr<OemEncoder> enco;
        auto fresh = [&] {
            switch (way)
            {
            case 0: cmd = std::make_unique<Commander>(db); break;
            case 1:
                cmd = std::make_unique<Commander>();
                cmd->LoadJsonDb(db);
                break;
            case 2:
                dec = std::make_unique<Oem>(db);
                enco = std::make_unique<OemEncoder>(db);
                break;
            default:
                cmd = std::make_unique<Commander>(mdb::Load(*mdb::Make(static_cast<uint64_t>(t.get("db")) + 1)));
                cmd->LoadJsonDb(db);
                break;
            }
        };
        Lib([&] { fresh(); });
        uint64_t done = 0, loads = 0;
        for (const Op& o : t.ops)
        {
            if (o.k == "load" && o.a.size() >= 2)
            {
                model = mdb::Make(static_cast<uint64_t>(t.get("db")) + static_cast<uint64_t>(Mod(o.at(0), 8)));
                db = Lib([&] { return mdb::Load(*model); });
                if (o.at(1) != 0) { Lib([&] { cmd->LoadJsonDb(db); }); }
                else { Lib([&] { *cmd = Commander(db); }); }
                c.ev("load", {o.at(0), o.at(1)});
                ++loads;
                continue;
            }
            if (o.k != "cmd" || o.a.size() < 9) { continue; }
            const Cmd x = MakeCmd(*model, o);
            const ENCODE_FORMAT ef = o.at(8) != 0 ? ENCODE_FORMAT::ASCII : ENCODE_FORMAT::BINARY;
            const std::string& want = o.at(8) != 0 ? x.asc : x.bin;
            if (x.kind != CMD_GOOD)
            {
                static const char* const names[] = {"", "parameters_missing", "parameters_cut", "parameters_damaged", "command_too_long", "command_unknown"};
                c.fault(names[x.kind]);
            }
            // the command is given by its length: nothing behind it may matter, nothing in front of it either
            sim::GuardedBuf in(x.text.size());
            std::memcpy(in.data(), x.text.data(), x.text.size());
            auto enc = [&](size_t size, std::string& bytes, const std::string& what) {
                sim::GuardedBuf out(size, 0xEE);
                uint32_t n = static_cast<uint32_t>(size);
                int st = -1;
                try
                {
                    const auto* p = reinterpret_cast<const char*>(in.data());
                    auto* q = reinterpret_cast<char*>(out.data());
                    sim::ScribbleStack(static_cast<unsigned char>(t.get("fill")));
                    st = static_cast<int>(cmd ? Lib([&] { return cmd->Encode(p, static_cast<uint32_t>(x.text.size()), q, n, ef); })
                                              : Lib([&] { return Commander::Encode(*db, *dec, *enco, p, static_cast<uint32_t>(x.text.size()), q, n, ef); }));
                }
                catch (const std::exception& e)
                {
                    c.fail(CLS("throws"), what + "ends in the exception " + e.what());
                    return -1;
                }
                ++c.calls;
                if (st == 0)
                {
                    if (n > size)
                    {
                        c.fail(CLS("length"), what + "a length of " + std::to_string(n) + " is reported for a buffer of " + std::to_string(size));
                        return -1;
                    }
                    bytes.assign(reinterpret_cast<char*>(out.data()), n);
                    c.check(n == size || out.data()[n] == 0, CLS("terminated"), what + "there is room behind the command, but it is not null-terminated");
                }
                return st;
            };
            const std::string head = "command '" + Cut(x.text) + "' to " + (o.at(8) != 0 ? "ascii" : "binary") + ": ";
            std::string full;
            const int fs = enc(300000, full, head);
            c.ev("full", {fs}, full);
            if (x.kind == CMD_GOOD)
            {
                c.check(want.empty() || (fs == 0 && full == want), CLS("command"), head + "the result is " + StName(fs) + " '" + Cut(full) + "' instead of '" + Cut(want) + "'");
                ++done;
            }
            else if (x.text.find(' ') == std::string::npos) { c.check(fs != 0, CLS("invented"), head + "it names nothing or has no parameters, but it is encoded as '" + Cut(full) + "'"); }
            if (fs != 0)
            {
                c.check(fs == static_cast<int>(STATUS::MALFORMED_INPUT) || fs == static_cast<int>(STATUS::NO_DEFINITION) || fs == static_cast<int>(STATUS::UNSUPPORTED), CLS("status"), head + "the answer is " + StName(fs));
                continue;
            }
            const bool printable = std::all_of(x.text.begin(), x.text.end(), [](char ch) { return (ch >= 0x20 && ch < 0x7F) || ch == '\r' || ch == '\n'; });
            if (x.kind != CMD_GOOD && full.size() < 0x7F00 && (printable || o.at(8) == 0)) // whatever it is, the receiver must see a message
            {
                wire::Grammar g;
                const wire::Parsed p = wire::Model(full, g);
                c.check(p.frames.size() == 1 && p.frames[0].pos == 0 && p.frames[0].len == full.size(), CLS("message"), head + "the output '" + Cut(full) + "' is not a message");
            }
            if (history) { continue; }
            const size_t n = full.size();
            std::vector<size_t> sz = {0, 1, n / 2, n > 8 ? n - 8 : 0, n + 1, n + 2, n + 3, n + 4, n + 17};
            for (size_t k = 0; k <= 12; ++k) { sz.push_back(n >= k ? n - k : 0); }
            Rng r(static_cast<uint64_t>(o.at(7)) + 3);
            for (int k = 0; k < 30; ++k) { sz.push_back(r.below(n + 20)); }
            size_t okAt = SIZE_MAX, failAt = 0;
            for (size_t s : sz)
            {
                const std::string what = head + "into " + std::to_string(s) + " of the " + std::to_string(n) + " bytes needed: ";
                std::string bytes;
                const int st = enc(s, bytes, what);
                if (st == 0)
                {
                    c.check(bytes == full, "C19:truncated", what + "success, but the output is '" + Cut(bytes) + "' instead of '" + Cut(full) + "'");
                    okAt = std::min(okAt, s);
                }
                else
                {
                    c.check(st == static_cast<int>(STATUS::BUFFER_FULL), "C19:status", what + "answers " + StName(st));
                    c.fault("output_buffer_too_small");
                    failAt = std::max(failAt, s);
                }
            }
            c.check(failAt < okAt, "C19:monotonic", head + "a buffer of " + std::to_string(okAt) + " bytes suffices, one of " + std::to_string(failAt) + " bytes does not");
            c.check(failAt <= n + 16, "C19:wasteful", head + std::to_string(n) + " bytes do not fit into " + std::to_string(failAt));
        }
        sim::g_fill = -1;
        c.nontrivial = history ? (loads ? done : 0) : done;
    }
};
struct CommandBuffer : Command
{
    CommandBuffer() : Command(false) {}
};
struct CommandHistory : Command
{
    CommandHistory() : Command(true) {}
};
SIM_SCENARIO("C19-command", CommandBuffer)
SIM_SCENARIO("C26-command", CommandHistory)
} // namespace
