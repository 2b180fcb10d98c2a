// C23: memory runs out somewhere inside a call. Every component is driven three times over the same work: once undisturbed,
// which counts the allocations; once with one of them (or several, or all from there on) failing, judged against the
// first; and, after a flush, over other work, which must come out as from a new component. A cycle that keeps memory every
// time it is repeated leaks.
#include "traffic.hpp"

#include "novatel_edie/decoders/oem/commander.hpp"
#include "novatel_edie/decoders/oem/file_parser.hpp"
#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"

#include <algorithm>
#include <sstream>

namespace {
using namespace cd;
using novatel::edie::oem::Commander;
using novatel::edie::oem::FileParser;
using novatel::edie::oem::Filter;
using novatel::edie::oem::Framer;
using novatel::edie::oem::Parser;
using novatel::edie::oem::RxConfigHandler;
using sim::Ctx;
using sim::Lib;
using sim::Op;
using sim::Rng;
using sim::Trace;

int Mod(int64_t v, int n) { return static_cast<int>(((v % n) + n) % n); }
std::string StName(STATUS s) { return std::string(novatel::edie::StatusToString(s)); }

struct Foreign // something other than a standard exception left the library
{
};
// What one call gave
struct Seen
{
    bool ok = false;       // delivered something
    bool reported = false; // as an exception or error status
    std::string text;
    bool operator==(const Seen& o) const { return ok == o.ok && reported == o.reported && text == o.text; }
};
using History = std::vector<Seen>;

struct Work
{
    std::vector<std::string> frames;
    std::string stream;
    std::vector<size_t> cuts; // sizes of the pieces the stream comes in
    std::string command;
};

enum Kind
{
    U_PARSER,
    U_PARSER_RANGE,
    U_FRAMER,
    U_NODE,
    U_FILE,
    U_RXCONFIG,
    U_COMMAND,
    U_VALUE,
    U_FILTER,
    U_N
};
const char* const kNames[U_N] = {"parser", "decompressing parser", "framer", "decoders and encoder", "file parser", "configuration log handler", "commander", "decoded message", "filter"};

struct Unit
{
    DbPtr db;
    ENCODE_FORMAT to = ENCODE_FORMAT::ASCII;
    virtual ~Unit() = default;
    virtual void build() = 0; // inside a library call
    virtual void work(const Work& w, History& h) = 0;
    virtual void recover() {}
    // one call; false: it threw
    template <typename F> static bool call(History& h, F&& f)
    {
        try
        {
            Lib(f);
            return true;
        }
        catch (const std::exception& e)
        {
            h.push_back({false, true, "exception"});
            return false;
        }
        catch (...)
        {
            throw Foreign();
        }
    }
};
Seen Delivered(STATUS st, const MessageDataStruct& ms, const MetaDataStruct& md)
{
    Seen s;
    s.ok = st == STATUS::SUCCESS || st == STATUS::NO_DEFINITION || st == STATUS::UNKNOWN;
    s.reported = !s.ok;
    s.text = StName(st);
    if (!s.ok) { return s; }
    if (ms.pucMessage != nullptr && ms.uiMessageLength <= 70000) { s.text += " " + std::string(reinterpret_cast<char*>(ms.pucMessage), ms.uiMessageLength); }
    if (st != STATUS::UNKNOWN) { s.text += " " + DumpMeta(md); }
    return s;
}
struct ParserUnit : Unit
{
    std::unique_ptr<Parser> p;
    bool range;
    explicit ParserUnit(bool r) : range(r) {}
    void build() override { p = std::make_unique<Parser>(db); }
    void drain(History& h)
    {
        int thrown = 0;
        for (int guard = 0; guard < 20000 && thrown < 20; ++guard)
        {
            MessageDataStruct ms;
            MetaDataStruct md;
            STATUS st = STATUS::FAILURE;
            if (!call(h, [&] { st = p->Read(ms, md); }))
            {
                ++thrown;
                continue;
            }
            if (st == STATUS::BUFFER_EMPTY) { return; }
            h.push_back(Delivered(st, ms, md));
        }
    }
    void work(const Work& w, History& h) override
    {
        p->SetDecompressRangeCmp(range);
        p->SetEncodeFormat(to);
        size_t at = 0, k = 0;
        while (at < w.stream.size())
        {
            const size_t n = std::min({w.cuts[k++ % w.cuts.size()], w.stream.size() - at, p->GetAvailableSpace()});
            call(h, [&] { p->Write(reinterpret_cast<const unsigned char*>(w.stream.data()) + at, n); });
            at += n;
            drain(h);
            if (n == 0 && p->GetAvailableSpace() == 0) { return; }
        }
    }
    void recover() override
    {
        Lib([&] { p->Flush(); });
    }
};
struct FramerUnit : Unit
{
    std::unique_ptr<Framer> f;
    void build() override { f = std::make_unique<Framer>(); }
    void work(const Work& w, History& h) override
    {
        sim::GuardedBuf buf(70000, 0xEE);
        size_t at = 0, k = 0;
        while (at < w.stream.size())
        {
            const size_t n = std::min({w.cuts[k++ % w.cuts.size()], w.stream.size() - at, f->GetAvailableSpace()});
            call(h, [&] { f->Write(reinterpret_cast<const unsigned char*>(w.stream.data()) + at, n); });
            at += n;
            for (int guard = 0, thrown = 0; guard < 20000 && thrown < 20; ++guard)
            {
                MetaDataStruct md;
                STATUS st = STATUS::FAILURE;
                if (!call(h, [&] { st = f->GetFrame(buf.data(), static_cast<uint32_t>(buf.size()), md); }))
                {
                    ++thrown;
                    continue;
                }
                if (st == STATUS::BUFFER_EMPTY || st == STATUS::INCOMPLETE) { break; }
                MessageDataStruct ms;
                ms.pucMessage = buf.data();
                ms.uiMessageLength = md.uiLength;
                h.push_back(Delivered(st, ms, md));
            }
            if (n == 0) { return; }
        }
    }
    void recover() override
    {
        sim::GuardedBuf b(70000, 0xEE);
        Lib([&] { return f->Flush(b.data(), 70000); });
    }
};
struct NodeUnit : Unit
{
    std::unique_ptr<Node> n;
    void build() override { n = std::make_unique<Node>(db); }
    void work(const Work& w, History& h) override
    {
        FramerFeed ff(true);
        std::vector<Framed> frames;
        const int64_t at = sim::g_allocFailAt;
        sim::g_allocFailAt = -1; // the framer is not part of this
        const int64_t count = sim::g_allocCount;
        for (const auto& f : w.frames) { ff.feed(f, frames); }
        sim::g_allocCount = count;
        sim::g_allocFailAt = at;
        for (const auto& f : frames)
        {
            if (f.unknown) { continue; }
            const Out o = n->convertFresh(f.bytes, to, f.md);
            Seen s;
            s.ok = o.stage == 'D';
            s.reported = !s.ok;
            s.text = o.thrown.empty() ? o.show() : "exception";
            h.push_back(s);
        }
    }
};
struct FileUnit : Unit
{
    std::unique_ptr<FileParser> p;
    void build() override { p = std::make_unique<FileParser>(db); }
    void work(const Work& w, History& h) override
    {
        auto s = std::make_shared<std::istringstream>(w.stream);
        bool ok = false;
        if (!call(h, [&] { ok = p->SetStream(s); }) || !ok) { return; }
        p->SetEncodeFormat(to);
        for (int guard = 0, thrown = 0; guard < 20000 && thrown < 20; ++guard)
        {
            MessageDataStruct ms;
            MetaDataStruct md;
            STATUS st = STATUS::FAILURE;
            if (!call(h, [&] { st = p->Read(ms, md); }))
            {
                ++thrown;
                continue;
            }
            if (st == STATUS::STREAM_EMPTY) { return; }
            h.push_back(Delivered(st, ms, md));
        }
    }
    void recover() override
    {
        Lib([&] { p->Reset(); });
    }
};
struct RxUnit : Unit
{
    std::unique_ptr<RxConfigHandler> p;
    void build() override { p = std::make_unique<RxConfigHandler>(db); }
    void work(const Work& w, History& h) override
    {
        size_t at = 0, k = 0;
        while (at < w.stream.size())
        {
            const size_t n = std::min(w.cuts[k++ % w.cuts.size()], w.stream.size() - at);
            size_t took = 0;
            call(h, [&] { took = p->Write(reinterpret_cast<const unsigned char*>(w.stream.data()) + at, static_cast<uint32_t>(n)); });
            at += n;
            for (int guard = 0, thrown = 0; guard < 20000 && thrown < 20; ++guard)
            {
                MessageDataStruct ms, ems;
                MetaDataStruct md, emd;
                STATUS st = STATUS::FAILURE;
                if (!call(h, [&] { st = p->Convert(ms, md, ems, emd, to); }))
                {
                    ++thrown;
                    continue;
                }
                if (st == STATUS::BUFFER_EMPTY) { break; }
                h.push_back(st == STATUS::SUCCESS ? Delivered(st, ms, md) : Seen{false, true, StName(st)});
                if (st == STATUS::SUCCESS && ems.pucMessage != nullptr) { h.back().text += " " + std::string(reinterpret_cast<char*>(ems.pucMessage), std::min<uint32_t>(ems.uiMessageLength, 70000)); }
            }
        }
    }
    void recover() override
    {
        sim::GuardedBuf b(70000, 0xEE);
        Lib([&] { p->Flush(b.data(), 70000); });
    }
};
struct CommandUnit : Unit
{
    std::unique_ptr<Commander> p;
    void build() override { p = std::make_unique<Commander>(db); }
    void work(const Work& w, History& h) override
    {
        std::istringstream in(w.command);
        std::string line;
        while (std::getline(in, line))
        {
            sim::GuardedBuf b(40000, 0xEE);
            uint32_t n = 40000;
            STATUS st = STATUS::FAILURE;
            if (!call(h, [&] { st = p->Encode(line.data(), static_cast<uint32_t>(line.size()), reinterpret_cast<char*>(b.data()), n, to == ENCODE_FORMAT::BINARY ? to : ENCODE_FORMAT::ASCII); })) { continue; }
            h.push_back({st == STATUS::SUCCESS, st != STATUS::SUCCESS, StName(st) + (st == STATUS::SUCCESS ? " " + std::string(reinterpret_cast<char*>(b.data()), n) : "")});
        }
    }
};
struct ValueUnit : Unit
{
    std::vector<std::unique_ptr<CompositeField>> held;
    std::unique_ptr<Node> n;
    void build() override { n = std::make_unique<Node>(db); }
    void work(const Work& w, History& h) override
    {
        // decoding is not part of this
        const int64_t at = sim::g_allocFailAt, count = sim::g_allocCount;
        sim::g_allocFailAt = -1;
        FramerFeed ff(true);
        std::vector<Framed> frames;
        for (const auto& f : w.frames) { ff.feed(f, frames); }
        std::vector<std::string> was;
        held.clear();
        for (const auto& f : frames)
        {
            if (f.unknown) { continue; }
            IntermediateHeader ih;
            auto cf = std::make_unique<CompositeField>();
            const Out o = n->convert(f.bytes, ENCODE_FORMAT::ASCII, ih, *cf, f.md);
            if (o.stage == 'H' || o.stage == 'M') { continue; }
            was.push_back(Dump(*cf));
            held.push_back(std::move(cf));
        }
        sim::g_allocCount = count;
        sim::g_allocFailAt = at;
        for (size_t i = 0; i < held.size(); ++i)
        {
            std::unique_ptr<CompositeField> copy;
            if (call(h, [&] { copy = std::make_unique<CompositeField>(*held[i]); })) { look(h, *copy, was[i]); }
            const size_t j = (i + 1) % held.size();
            CompositeField other;
            const bool assigned = call(h, [&] { other = *held[j]; });
            if (assigned) { look(h, other, was[j]); }
            if (copy && call(h, [&] { *copy = *held[j]; })) { look(h, *copy, was[j]); }
            if (copy && assigned && call(h, [&] { *copy = std::move(other); })) { look(h, *copy, was[j]); }
            look(h, *held[i], was[i]);
            look(h, *held[j], was[j]);
        }
    }
    static void look(History& h, const CompositeField& cf, const std::string& want)
    {
        // reading is not part of this either
        const int64_t at = sim::g_allocFailAt, count = sim::g_allocCount;
        sim::g_allocFailAt = -1;
        const std::string d = Dump(cf);
        h.push_back({true, false, d == want ? "intact" : "changed to " + d});
        sim::g_allocCount = count;
        sim::g_allocFailAt = at;
    }
};
struct FilterUnit : Unit
{
    std::unique_ptr<Filter> f;
    void build() override { f = std::make_unique<Filter>(); }
    void work(const Work& w, History& h) override
    {
        Rng r(sim::Fnv(w.stream));
        bool whole = true;
        for (int i = 0; i < 6; ++i)
        {
            std::vector<std::tuple<uint32_t, HEADER_FORMAT, uint8_t>> ids;
            std::vector<std::tuple<std::string, HEADER_FORMAT, uint8_t>> names;
            std::vector<novatel::edie::TIME_STATUS> stat;
            for (int k = 0; k < 3; ++k)
            {
                ids.emplace_back(static_cast<uint32_t>(40 + r.below(5)), r.chance(1, 2) ? HEADER_FORMAT::ALL : HEADER_FORMAT::BINARY, static_cast<uint8_t>(r.below(2)));
                names.emplace_back("ALONGMESSAGENAME" + std::to_string(r.below(4)), HEADER_FORMAT::ALL, static_cast<uint8_t>(r.below(2)));
                stat.push_back(static_cast<novatel::edie::TIME_STATUS>(r.pick({20, 60, 180, 200})));
            }
            switch (r.below(6))
            {
            case 0: whole &= call(h, [&] { f->IncludeMessageId(ids); }); break;
            case 1: whole &= call(h, [&] { f->IncludeMessageName(names); }); break;
            case 2: whole &= call(h, [&] { f->IncludeTimeStatus(stat); }); break;
            case 3: whole &= call(h, [&] { f->IncludeMessageId(std::get<0>(ids[0]), std::get<1>(ids[0]), std::get<2>(ids[0])); }); break;
            case 4: whole &= call(h, [&] { f->IncludeMessageName(std::get<0>(names[0]), std::get<1>(names[0]), std::get<2>(names[0])); }); break;
            default: whole &= call(h, [&] { f->IncludeTimeStatus(stat[0]); }); break;
            }
        }
        for (int i = 0; i < 40; ++i)
        {
            MetaDataStruct md;
            md.eFormat = r.chance(1, 2) ? HEADER_FORMAT::BINARY : HEADER_FORMAT::ASCII;
            md.usMessageId = static_cast<uint16_t>(40 + r.below(5));
            md.ucSiblingId = static_cast<uint8_t>(r.below(2));
            md.messageName = "ALONGMESSAGENAME" + std::to_string(r.below(4));
            md.eTimeStatus = static_cast<novatel::edie::TIME_STATUS>(r.pick({20, 60, 180, 200}));
            bool in = false;
            if (call(h, [&] { in = f->DoFiltering(md); })) { h.push_back({true, false, !whole ? "undecided" : in ? "in" : "out"}); }
        }
    }
    void recover() override
    {
        Lib([&] { f->ClearFilters(); });
    }
};

struct OutOfMemory : sim::Scenario
{
    bool isolated() const override { return true; }
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(thorough ? 200 : 40));
        t.cfg["fill"] = r.pick<int64_t>({0x00, 0xFF, 0x41});
        const int n = static_cast<int>(r.range(1, thorough ? 8 : 4));
        for (int i = 0; i < n; ++i)
        {
            // unit, form, target, messages, seed, phase (0 construction, 1 work, 2 construction before anything else), where, how many, leak
            const int64_t kind = static_cast<int64_t>(r.weighted({6, 3, 3, 6, 3, 4, 3, 3, 1}));
            t.add("oom", {kind, static_cast<int64_t>(r.below(7)), static_cast<int64_t>(r.below(5)), r.range(1, 5), static_cast<int64_t>(r.below(1u << 30)), i == 0 && r.chance(1, 3) ? 2 : r.chance(1, 4) ? 0 : 1,
                          static_cast<int64_t>(r.below(1u << 20)), r.pick<int64_t>({1, 1, 1, 1, 2, 3, 8, 1000000000}), r.chance(1, 3)});
        }
    }
    static Work MakeWork(const mdb::Db& db, int kind, int form, int64_t msgs, uint64_t seed)
    {
        Work w;
        Rng r(seed);
        const int wires[] = {mdb::F_BIN, mdb::F_ASC, mdb::F_ABB};
        if (kind == U_PARSER_RANGE)
        {
            for (auto& f : RangeRecording(db, seed, static_cast<int>(msgs))) { w.frames.push_back(f); }
        }
        for (int64_t i = 0; i < msgs; ++i)
        {
            if (kind == U_RXCONFIG || (kind == U_PARSER && r.chance(1, 4)) || (kind == U_FILE && r.chance(1, 4)))
            {
                w.frames.push_back(RxFrame(db, wires[r.below(3)], r.below(1u << 30)));
                continue;
            }
            Op o;
            o.a = RandomNums(r, r.chance(1, 4) ? static_cast<int>(r.below(7)) : form, {10, 1, 2, 1, 1});
            o.a[0] = Mod(o.a[0], static_cast<int>(db.msgs.size() - 2));
            w.frames.push_back(MakeMsg(db, o).frame);
            if (kind == U_COMMAND)
            {
                Op e = o;
                e.a[3] = mdb::F_ABB;
                e.a[4] = K_VALID;
                const Made m = MakeMsg(db, e);
                std::string text = m.frame.substr(std::min(m.frame.find("\r\n"), m.frame.size()));
                for (char& ch : text)
                {
                    if (ch == '\r' || ch == '\n' || ch == '<') { ch = ' '; }
                }
                w.command += m.m->name + " " + text.substr(std::min(text.find_first_not_of(' '), text.size())) + "\n";
            }
        }
        for (const auto& f : w.frames)
        {
            if (r.chance(1, 6)) { w.stream += wire::RandomBytes(r, r.below(20)); }
            w.stream += f;
        }
        const size_t piece = r.pick<size_t>({20, 500, 40000});
        for (int i = 0; i < 5; ++i) { w.cuts.push_back(1 + r.below(piece)); }
        return w;
    }
    static std::unique_ptr<Unit> MakeUnit(int kind, const DbPtr& db, ENCODE_FORMAT to)
    {
        std::unique_ptr<Unit> u;
        switch (kind)
        {
        case U_PARSER: u = std::make_unique<ParserUnit>(false); break;
        case U_PARSER_RANGE: u = std::make_unique<ParserUnit>(true); break;
        case U_FRAMER: u = std::make_unique<FramerUnit>(); break;
        case U_NODE: u = std::make_unique<NodeUnit>(); break;
        case U_FILE: u = std::make_unique<FileUnit>(); break;
        case U_RXCONFIG: u = std::make_unique<RxUnit>(); break;
        case U_COMMAND: u = std::make_unique<CommandUnit>(); break;
        case U_VALUE: u = std::make_unique<ValueUnit>(); break;
        default: u = std::make_unique<FilterUnit>(); break;
        }
        u->db = db;
        u->to = to;
        return u;
    }
    static std::string Show(const History& h, const History& other)
    {
        std::string s;
        for (size_t i = 0; i < h.size(); ++i)
        {
            if (i < other.size() && h[i] == other[i]) { continue; }
            s += "\n    " + std::to_string(i) + ": " + sim::Printable(h[i].text, 300);
            if (s.size() > 1500) { break; }
        }
        return s.empty() ? " nothing more" : s;
    }

    static bool Decompressed(const Seen& s) { return s.ok && s.text.size() > 6 && s.text.compare(s.text.size() - 6, 6, "/RANGE") == 0; }

    void run(const Trace& t, Ctx& c) override
    {
        auto model = mdb::Make(static_cast<uint64_t>(t.get("db")), mdb::RANGE_MSGS | mdb::RXCONFIG_MSG);
        DbPtr db = Lib([&] { return mdb::Load(*model); });
        sim::g_fill = static_cast<int>(t.get("fill") & 255);
        const ENCODE_FORMAT kTo[] = {ENCODE_FORMAT::ASCII, ENCODE_FORMAT::BINARY, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON, ENCODE_FORMAT::FLATTENED_BINARY};
        uint64_t failed = 0;
        for (const Op& o : t.ops)
        {
            if (o.k != "oom" || o.a.size() < 9) { continue; }
            const int kind = Mod(o.at(0), U_N), phase = Mod(o.at(5), 3);
            const ENCODE_FORMAT to = kTo[Mod(o.at(2), kind == U_RXCONFIG ? 4 : 5)];
            const Work w = MakeWork(*model, kind, Mod(o.at(1), 7), std::clamp<int64_t>(o.at(3), 1, 8), static_cast<uint64_t>(o.at(4)));
            const Work w2 = MakeWork(*model, kind, Mod(o.at(1) + 3, 7), 3, static_cast<uint64_t>(o.at(4)) + 1);
            c.simBytes += w.stream.size() + w2.stream.size();
            const std::string what = std::string(kNames[kind]) + ": ";
            auto arm = [&](int64_t among) {
                sim::g_allocFired = false;
                sim::g_allocFailCount = std::max<int64_t>(1, o.at(7));
                sim::g_allocFailAt = sim::g_allocCount + o.at(6) % std::max<int64_t>(1, among);
            };
            bool fired = false;
            auto disarm = [&] {
                sim::g_allocFailAt = -1;
                fired |= sim::g_allocFired;
                sim::g_allocFired = false;
            };
            // construction under failure; true: constructed
            auto construct = [&](Unit& u, int64_t among) {
                arm(among);
                bool ok = false;
                try
                {
                    Lib([&] { u.build(); });
                    ok = true;
                }
                catch (const std::exception&)
                {
                }
                catch (...)
                {
                    disarm();
                    c.fail("C23:foreign-exception", what + "its construction ends in something that is not a standard exception");
                }
                disarm();
                c.check(ok || fired, "C23:invented", what + "its construction fails although there was memory");
                return ok;
            };
            auto work = [&](Unit& u, const Work& x) {
                History h;
                try
                {
                    u.work(x, h);
                }
                catch (const Foreign&)
                {
                    c.fail("C23:foreign-exception", what + "a call ends in something that is not a standard exception");
                }
                return h;
            };
            if (phase == 2)
            {
                auto u = MakeUnit(kind, db, to);
                construct(*u, 150);
                c.probe("first_construction_of_the_process");
            }
            // undisturbed
            int64_t builds, works;
            History want, want2;
            for (int again = 0; again < 2; ++again) // the first time may fill caches that stay
            {
                auto u = MakeUnit(kind, db, to);
                int64_t before = sim::g_allocCount;
                Lib([&] { u->build(); });
                builds = sim::g_allocCount - before;
                before = sim::g_allocCount;
                want = work(*u, w);
                works = sim::g_allocCount - before;
                auto v = MakeUnit(kind, db, to);
                Lib([&] { v->build(); });
                want2 = work(*v, w2);
            }
            // and with memory running out
            auto cycle = [&](bool judge) {
                fired = false;
                auto u = MakeUnit(kind, db, to);
                if (phase == 1)
                {
                    Lib([&] { u->build(); });
                    arm(works);
                    const History got = work(*u, w);
                    disarm();
                    if (!judge) { return; }
                    c.ev("work", {static_cast<int64_t>(got.size()), fired}, got.empty() ? "" : got.back().text);
                    if (!fired)
                    {
                        c.check(got == want, "C23:unrepeatable", what + "the same work gives something else:" + Show(got, want) + "\n  instead of" + Show(want, got));
                    }
                    std::multiset<std::string> usual;
                    bool reported = false, usualFailures = false;
                    for (const auto& s : want) { usualFailures |= s.text == "DECOMPRESSION_FAILURE"; }
                    for (const auto& s : want) { if (s.reported) { usual.insert(s.text); } }
                    for (const auto& s : got)
                    {
                        if (!s.reported) { continue; }
                        const auto i = usual.find(s.text);
                        if (i == usual.end()) { reported = true; }
                        else { usual.erase(i); }
                    }
                    if (!reported)
                    {
                        History a = got, b = want;
                        if (usualFailures)
                        {
                            // A log that is refused anyway may have been refused earlier than usual; lock times depend on that
                            for (auto& x : a) { if (Decompressed(x)) { x.text = "RANGE"; } }
                            for (auto& x : b) { if (Decompressed(x)) { x.text = "RANGE"; } }
                        }
                        c.check(a == b, "C23:silent", what + "an allocation failed, nothing was reported, but the results are" + Show(got, want) + "\n  instead of" + Show(want, got));
                        if (fired) { c.probe("failure_without_consequence"); }
                    }
                    else
                    {
                        c.probe("failure_reported");
                        // what is delivered nevertheless must be right
                        std::vector<std::string> right;
                        for (const auto& s : want) { if (s.ok) { right.push_back(s.text); } }
                        std::sort(right.begin(), right.end());
                        for (const auto& s : got)
                        {
                            if (!s.ok || s.text.rfind("UNKNOWN", 0) == 0 || s.text == "undecided") { continue; }
                            if (Decompressed(s)) { continue; } // lock times depend on the logs before, and one of them is missing
                            c.check(std::binary_search(right.begin(), right.end(), s.text), "C23:corrupted", what + "an allocation failed, and '" + sim::Printable(s.text, 400) + "' is delivered, which the undisturbed component does not deliver:" + Show(want, got));
                        }
                    }
                    u->recover();
                    const History after = work(*u, w2);
                    c.check(after == want2, "C23:not-like-new", what + "after a failed allocation and a flush it delivers" + Show(after, want2) + "\n  instead of" + Show(want2, after));
                }
                else
                {
                    const bool ok = construct(*u, builds);
                    if (!judge) { return; }
                    c.ev("construct", {ok, fired});
                    if (ok)
                    {
                        if (fired) { c.probe("failure_without_consequence"); }
                        const History got = work(*u, w);
                        c.check(got == want, "C23:half-constructed", what + "an allocation failed in its construction, which was not reported; it delivers" + Show(got, want) + "\n  instead of" + Show(want, got));
                    }
                    else { c.probe("failure_reported"); }
                    auto v = MakeUnit(kind, db, to);
                    Lib([&] { v->build(); });
                    const History after = work(*v, w2);
                    c.check(after == want2, "C23:not-like-new", what + "after a failed construction another one delivers" + Show(after, want2) + "\n  instead of" + Show(want2, after));
                }
                ++c.calls;
            };
            cycle(true);
            if (fired)
            {
                ++failed;
                c.fault(o.at(7) > 1000 ? "memory_exhausted_for_a_while" : o.at(7) > 1 ? "allocations_failed" : "allocation_failed");
                c.probe(kNames[kind]);
            }
            if (o.at(8) != 0)
            {
                int64_t kept[3];
                for (auto& k : kept)
                {
                    sim::TrackAllocs(true);
                    cycle(false);
                    k = sim::TrackedLive();
                    sim::TrackAllocs(false);
                }
                c.check(kept[0] <= 0 || kept[1] <= 0 || kept[2] <= 0, "C23:leak",
                        what + "every time an allocation fails here " + std::to_string(kept[2]) + " blocks stay allocated although the component is gone");
                c.probe("repeated_for_leaks");
            }
        }
        sim::g_fill = -1;
        c.nontrivial = failed;
    }
};
SIM_SCENARIO("C23", OutOfMemory)
} // namespace
