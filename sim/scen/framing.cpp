#include "framing.hpp"

#include <algorithm>

#include "novatel_edie/decoders/oem/framer_abb_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii_short.hpp"
#include "novatel_edie/decoders/oem/framer_binary.hpp"
#include "novatel_edie/decoders/oem/framer_binary_short.hpp"

namespace fr {
using namespace novatel::edie;
using sim::Lib;
using sim::LibBudget;

unsigned FmtBit(HEADER_FORMAT f)
{
    switch (f)
    {
    case HEADER_FORMAT::BINARY: return wire::BIN;
    case HEADER_FORMAT::SHORT_BINARY: return wire::SBIN;
    case HEADER_FORMAT::PROPRIETARY_BINARY: return wire::PBIN;
    case HEADER_FORMAT::ASCII: return wire::ASC;
    case HEADER_FORMAT::SHORT_ASCII: return wire::SASC;
    case HEADER_FORMAT::ABB_ASCII: return wire::ABB;
    case HEADER_FORMAT::NMEA: return wire::NMEA;
    case HEADER_FORMAT::JSON: return wire::JSON;
    default: return 0;
    }
}
static const char* kNames[] = {"", "OEM", "OEM_BINARY", "OEM_BINARY_SHORT", "OEM_ASCII", "OEM_ASCII_SHORT", "OEM_ABB_ASCII"};
static const unsigned kMasks[] = {0, wire::OEM_ALL, wire::BIN, wire::SBIN, wire::ASC, wire::SASC, wire::ABB};

wire::Grammar GrammarOf(const Trace& t)
{
    wire::Grammar g;
    switch (t.get("dut"))
    {
    case D_OEM: g.mask = wire::OEM_ALL | (t.get("json") ? wire::JSON : 0); break;
    case D_MAN: {
        g.mask = 0;
        g.oemStyle = false;
        for (int64_t m = t.get("man"); m; m /= 10)
        {
            if (m % 10 < 7) { g.mask |= kMasks[m % 10]; }
            if (m % 10 == 1)
            {
                g.oemStyle = true;
                if (t.get("json")) { g.mask |= wire::JSON; }
            }
        }
        break;
    }
    default:
        g.mask = kMasks[std::min<int64_t>(t.get("dut") + 1, 6)];
        g.oemStyle = false;
    }
    return g;
}

// Work bound for one call: proportional to the bytes buffered (a call may look at each byte a few times).
static uint64_t Budget(size_t buffered, size_t extra = 0) { return 20000 + 600ull * (buffered + extra); }

namespace {
template <typename F> class Single : public Box
{
    std::shared_ptr<UCharFixedBuffer> buf_;
    std::unique_ptr<F> f_;
    oem::MetaDataStruct md_;
    uint32_t dirt_ = 0;

  public:
    explicit Single(const Trace& t)
    {
        cap = static_cast<size_t>(t.get("cap", RECOMMENDED_FRAME_BUFFER_SIZE));
        if (cap == RECOMMENDED_FRAME_BUFFER_SIZE) { Lib([&] { f_ = std::make_unique<F>(); }); }
        else
        {
            Lib([&] {
                buf_ = std::make_shared<UCharFixedBuffer>(cap);
                f_ = std::make_unique<F>(buf_);
            });
        }
        f_->SetFrameJson(t.get("json") != 0);
        f_->SetPayloadOnly(t.get("payload") != 0);
        f_->SetReportUnknownBytes(t.get("report", 1) != 0);
    }
    size_t write(const std::string& b) override
    {
        return LibBudget(Budget(b.size()), [&] { return f_->Write(reinterpret_cast<const unsigned char*>(b.data()), b.size()); });
    }
    GetResult get(size_t n, int metaMode) override
    {
        unsigned char* p = out(n);
        GetResult r;
        if (metaMode == 0) { md_ = oem::MetaDataStruct(); }
        if (metaMode == 2)
        {
            // a caller may hand in any metadata object
            md_ = oem::MetaDataStruct();
            md_.eFormat = static_cast<HEADER_FORMAT>(1 + (dirt_ * 7 + 3) % 11);
            md_.bResponse = dirt_ & 1;
            md_.uiLength = 12345 * dirt_;
            ++dirt_;
        }
        const size_t a = f_->GetAvailableSpace();
        r.st = LibBudget(Budget(cap - a), [&] { return f_->GetFrame(p, static_cast<uint32_t>(n), md_); });
        r.consumed = f_->GetAvailableSpace() - a;
        r.fmt = md_.eFormat;
        r.response = md_.bResponse;
        r.length = md_.uiLength;
        if (r.st == STATUS::SUCCESS || r.st == STATUS::UNKNOWN)
        {
            r.overLength = r.length > n;
            r.bytes.assign(reinterpret_cast<char*>(p), std::min<size_t>(r.length, n));
            dirty_ = r.bytes.size();
        }
        return r;
    }
    std::string flush(size_t n, bool& lied) override
    {
        unsigned char* p = out(n);
        uint32_t k = LibBudget(Budget(cap), [&] { return f_->Flush(p, static_cast<uint32_t>(n)); });
        lied = k > n;
        dirty_ = std::min<size_t>(k, n);
        return std::string(reinterpret_cast<char*>(p), dirty_);
    }
    size_t avail() override { return f_->GetAvailableSpace(); }
    void reset() override
    {
        f_->InitAttributes();
        f_->ResetState();
    }
};

class Manager : public Box
{
    std::unique_ptr<FramerManager> m_;

  public:
    explicit Manager(const Trace& t)
    {
        std::vector<std::string> sel;
        std::string digits = std::to_string(t.get("man"));
        for (char d : digits)
        {
            if (d >= '1' && d <= '6') { sel.push_back(kNames[d - '0']); }
        }
        Lib([&] { m_ = std::make_unique<FramerManager>(sel); });
        cap = m_->GetFixedBuffer()->capacity();
        m_->SetReportUnknownBytes(t.get("report", 1) != 0);
        if (auto* e = m_->GetFramerEntry("OEM")) { e->framerInstance->SetFrameJson(t.get("json") != 0); }
    }
    size_t write(const std::string& b) override
    {
        return LibBudget(Budget(b.size()), [&] { return m_->Write(reinterpret_cast<const unsigned char*>(b.data()), b.size()); });
    }
    GetResult get(size_t n, int) override
    {
        unsigned char* p = out(n);
        GetResult r;
        MetaDataBase* md = nullptr;
        const size_t a = m_->GetAvailableSpace();
        r.st = LibBudget(6 * Budget(cap - a), [&] { return m_->GetFrame(p, static_cast<uint32_t>(n), md); });
        r.consumed = m_->GetAvailableSpace() - a;
        if (md)
        {
            r.fmt = md->eFormat;
            r.response = md->bResponse;
            r.length = md->uiLength;
        }
        if (r.st == STATUS::SUCCESS) { r.name = m_->GetActiveFramerName(); }
        if (r.st == STATUS::SUCCESS || r.st == STATUS::UNKNOWN)
        {
            r.overLength = r.length > n;
            r.bytes.assign(reinterpret_cast<char*>(p), std::min<size_t>(r.length, n));
            dirty_ = r.bytes.size();
        }
        return r;
    }
    std::string flush(size_t n, bool& lied) override
    {
        unsigned char* p = out(n);
        uint32_t k = LibBudget(Budget(cap), [&] { return m_->Flush(p, static_cast<uint32_t>(n)); });
        lied = k > n;
        dirty_ = std::min<size_t>(k, n);
        return std::string(reinterpret_cast<char*>(p), dirty_);
    }
    size_t avail() override { return m_->GetAvailableSpace(); }
    void reset() override { m_->ResetAllFramerStates(); }
};
} // namespace

std::unique_ptr<Box> MakeBox(const Trace& t)
{
    switch (t.get("dut"))
    {
    case D_OEM: return std::make_unique<Single<oem::Framer>>(t);
    case D_BIN: return std::make_unique<Single<oem::FramerBinary>>(t);
    case D_SBIN: return std::make_unique<Single<oem::FramerBinaryShort>>(t);
    case D_ASC: return std::make_unique<Single<oem::FramerAscii>>(t);
    case D_SASC: return std::make_unique<Single<oem::FramerAsciiShort>>(t);
    case D_ABB: return std::make_unique<Single<oem::FramerAbbAscii>>(t);
    default: return std::make_unique<Manager>(t);
    }
}

std::vector<Rep> Merge(const std::vector<Rep>& v)
{
    std::vector<Rep> o;
    for (auto& r : v)
    {
        if (r.kind != 'F' && !o.empty() && o.back().kind != 'F')
        {
            o.back().bytes += r.bytes;
            o.back().length += r.length;
            continue;
        }
        o.push_back(r);
        if (r.kind != 'F') { o.back().kind = 'U'; }
    }
    return o;
}
std::string Describe(const Rep& r)
{
    if (r.kind == 'F') { return std::string(wire::FmtName(r.fmt)) + (r.response ? " response" : "") + " frame [" + sim::Printable(r.bytes) + "]"; }
    return std::string(r.kind == 'U' ? "unknown" : "flushed") + " bytes [" + sim::Printable(r.bytes) + "]";
}

std::string StreamOf(const Trace& t)
{
    std::string s;
    for (auto& o : t.ops)
    {
        if (o.k == "seg") { s += o.b; }
        if (o.k == "pad") { s += std::string(static_cast<size_t>(std::clamp<int64_t>(o.at(0), 0, 200000)), 'x'); }
    }
    return s;
}

Engine::Engine(const Trace& t_, Ctx& c_, unsigned checks_) : t(t_), c(c_), checks(checks_)
{
    g = GrammarOf(t);
    stream = StreamOf(t);
    fbuf = static_cast<size_t>(t.get("fbuf", 65536));
    meta = static_cast<int>(t.get("meta"));
    reportUnknown = t.get("report", 1) != 0;
    payloadOnly = t.get("payload") != 0;
    fresh();
}

bool Engine::writeSome(size_t n)
{
    n = std::min(n, stream.size() - sent);
    if (n == 0) { return true; }
    const size_t a = box->avail();
    const size_t k = box->write(stream.substr(sent, n));
    c.calls++;
    c.simBytes += k;
    c.ev("w", {static_cast<int64_t>(n), static_cast<int64_t>(k)});
    status.push_back("w" + std::to_string(k));
    if (checks & K_CONSERVE)
    {
        c.check(k == 0 || k == n, "C01:partial-write", "a write of " + std::to_string(n) + " bytes was accepted for " + std::to_string(k));
        c.check((k == n) == (n <= a), "C01:space", "write of " + std::to_string(n) + " bytes returned " + std::to_string(k) + " while " +
                                                       std::to_string(a) + " bytes of space were advertised");
        c.check(box->avail() == a - k, "C01:space", "advertised space went from " + std::to_string(a) + " to " + std::to_string(box->avail()) +
                                                        " after accepting " + std::to_string(k) + " bytes");
    }
    if (k == 0)
    {
        c.probe("write_refused");
        return false;
    }
    sent += std::min(k, n);
    return true;
}

GetResult Engine::getOne(size_t size)
{
    const size_t before = buffered();
    GetResult r = box->get(size, meta);
    c.calls++;
    full = r.st == STATUS::BUFFER_FULL;
    c.ev("g", {static_cast<int64_t>(r.st), static_cast<int64_t>(r.st == STATUS::SUCCESS ? FmtBit(r.fmt) : 0), r.response && r.st == STATUS::SUCCESS,
               static_cast<int64_t>(r.consumed)},
         r.bytes);
    status.push_back("g" + std::to_string(static_cast<int>(r.st)) + ":" + std::to_string(r.consumed) + ":" + r.bytes);
    const bool took = r.st == STATUS::SUCCESS || r.st == STATUS::UNKNOWN;
    if (checks & K_SIZE)
    {
        c.check(!(took && r.overLength), "C06:length", "reported " + std::to_string(r.length) + " bytes in a buffer of " + std::to_string(size));
    }
    if (checks & (K_CONSERVE | K_SIZE))
    {
        const char* cls = checks & K_CONSERVE ? "C01:consumed" : "C06:consumed";
        if (!took) { c.check(r.consumed == 0, cls, "status " + std::string(StatusToString(r.st)) + " consumed " + std::to_string(r.consumed) + " bytes"); }
        else if (!payloadOnly)
        {
            c.check(r.consumed == r.length, cls, "reported " + std::to_string(r.length) + " bytes, removed " + std::to_string(r.consumed));
        }
    }
    if (checks & K_CONSERVE)
    {
        if (r.st == STATUS::BUFFER_EMPTY) { c.check(before == 0, "C01:empty", "BUFFER_EMPTY with " + std::to_string(before) + " bytes buffered"); }
        if (took)
        {
            const bool delivered = (r.st == STATUS::SUCCESS && !payloadOnly) || (r.st == STATUS::UNKNOWN && reportUnknown);
            if (delivered)
            {
                c.check(stream.compare(accounted, r.bytes.size(), r.bytes) == 0, "C01:bytes",
                        "bytes handed back differ from the next bytes of the stream: got [" + sim::Printable(r.bytes) + "], stream has [" +
                            sim::Printable(std::string_view(stream).substr(accounted, r.bytes.size())) + "]");
            }
        }
    }
    if (took && r.consumed == 0 && (checks & (K_CONSERVE | K_SIZE)) == 0 && size > 0)
    {
        c.fail("progress", "a call reported " + std::string(StatusToString(r.st)) + " without consuming anything");
    }
    if (r.st == STATUS::SUCCESS)
    {
        c.probe((std::string("frame_") + wire::FmtName(FmtBit(r.fmt))).c_str());
        if (checks & K_INTACT)
        {
            const unsigned bit = FmtBit(r.fmt);
            c.check((bit & g.mask) != 0, "C03:format", std::string("a frame was reported with format ") + wire::FmtName(bit));
            if (!payloadOnly)
            {
                std::string why = wire::Validate(r.bytes, bit, r.response, g);
                c.check(why.empty(), "C03:not-intact",
                        std::string("a ") + wire::FmtName(bit) + " frame was reported but " + why + ": [" + sim::Printable(r.bytes, 160) + "]");
            }
        }
        if ((checks & K_NAME) && t.get("dut") == D_MAN)
        {
            unsigned m = 0;
            for (int i = 1; i <= 6; ++i)
            {
                if (r.name == kNames[i])
                {
                    m = kMasks[i];
                    if (i == 1) { m |= wire::JSON; }
                }
            }
            bool selected = false;
            for (int64_t q = t.get("man"); q; q /= 10)
            {
                if (q % 10 < 7 && r.name == kNames[q % 10]) { selected = true; }
            }
            c.check(selected, "C08:name", "a frame was reported under the name '" + r.name + "', which was not selected");
            c.check((m & FmtBit(r.fmt)) != 0, "C08:name",
                    std::string("a ") + wire::FmtName(FmtBit(r.fmt)) + " frame was reported under the name '" + r.name + "'");
        }
        reps.push_back({'F', FmtBit(r.fmt), r.response, r.bytes, r.name, r.length});
    }
    else if (r.st == STATUS::UNKNOWN) { reps.push_back({'U', 0, false, r.bytes, "", r.length}); }
    else if (r.st == STATUS::INCOMPLETE) { c.probe("incomplete"); }
    else if (r.st == STATUS::BUFFER_FULL) { c.probe("buffer_full"); }
    accounted += r.consumed;
    return r;
}

void Engine::drain(size_t size)
{
    // every call that is not a terminal answer must consume at least one byte
    size_t calls = 0;
    const size_t limit = buffered() + 8;
    for (;;)
    {
        GetResult r = getOne(size);
        if (r.st != STATUS::SUCCESS && r.st != STATUS::UNKNOWN) { break; }
        if (++calls > limit) { c.fail("C05:drain", "draining " + std::to_string(limit - 8) + " buffered bytes took more than " + std::to_string(calls) + " calls"); }
    }
}

void Engine::flush(size_t n)
{
    const size_t have = buffered();
    bool lied = false;
    std::string b = box->flush(n, lied);
    c.calls++;
    c.ev("fl", {static_cast<int64_t>(n), static_cast<int64_t>(b.size())}, b);
    status.push_back("f" + b);
    c.probe(have ? "flush_nonempty" : "flush_empty");
    if (checks & K_CONSERVE)
    {
        c.check(!lied && b.size() == std::min(have, n), "C01:flush",
                "flushing " + std::to_string(have) + " buffered bytes into " + std::to_string(n) + " returned " + std::to_string(b.size()));
        if (reportUnknown)
        {
            c.check(stream.compare(accounted, b.size(), b) == 0, "C01:flush", "flushed bytes differ from the stream: [" + sim::Printable(b) + "]");
        }
        c.check(buffered() == have - b.size(), "C01:flush", "flush left the wrong number of bytes buffered");
    }
    if (!b.empty()) { reps.push_back({'L', 0, false, b, "", static_cast<uint32_t>(b.size())}); }
    accounted += have - buffered();
}
void Engine::reset()
{
    box->reset();
    c.ev("rst");
    status.push_back("r");
    c.probe("reset");
}

void Engine::op(const Op& o)
{
    if (o.k == "w") { writeSome(static_cast<size_t>(std::clamp<int64_t>(o.at(0), 0, 1 << 20))); }
    else if (o.k == "g")
    {
        for (int64_t i = std::min<int64_t>(o.at(0, 1), 64); i > 0; --i)
        {
            GetResult r = getOne(fbuf);
            if (r.st != STATUS::SUCCESS && r.st != STATUS::UNKNOWN) { break; }
        }
    }
    else if (o.k == "gs") { getOne(static_cast<size_t>(std::clamp<int64_t>(o.at(0), 0, 1 << 17))); }
    else if (o.k == "d") { drain(fbuf); }
    else if (o.k == "fl") { flush(static_cast<size_t>(std::clamp<int64_t>(o.at(0), 0, 1 << 19))); }
    else if (o.k == "rst") { reset(); }
    else if (o.k == "seg" && o.at(0) == 0 && o.at(1) > 0)
    {
        static const char* kinds[] = {"", "garbage", "byte_flip", "byte_overwrite", "bytes_lost", "truncated_tail", "truncated_head", "bytes_duplicated",
                                      "bytes_inserted", "spliced", "trailer_damaged", "false_start", "foreign_format", "message_lost", "message_duplicated"};
        if (o.at(1) < 15) { c.fault(kinds[o.at(1)]); }
    }
}
void Engine::schedule()
{
    for (auto& o : t.ops) { op(o); }
}
void Engine::finish()
{
    size_t stuck = 0;
    while (sent < stream.size())
    {
        const size_t n = std::min<size_t>(stream.size() - sent, std::max<size_t>(1, std::min<size_t>(box->avail(), 8192)));
        const size_t s = sent, a = accounted;
        writeSome(n);
        drain(fbuf);
        if (sent == s && accounted == a && ++stuck > 2) { break; } // the component holds a candidate that fills it
    }
    drain(fbuf);
}

// ------------------------------------------------------------------ generators
static int64_t KindId(const std::string& w)
{
    static const char* kinds[] = {"", "garbage", "byte_flip", "byte_overwrite", "bytes_lost", "truncated_tail", "truncated_head", "bytes_duplicated",
                                  "bytes_inserted", "spliced", "trailer_damaged", "false_start", "foreign_format", "message_lost", "message_duplicated"};
    for (int i = 0; i < 15; ++i)
    {
        if (w == kinds[i]) { return i; }
    }
    return 1;
}

void GenDut(Rng& r, Trace& t, bool managers, bool singles)
{
    if (managers && (!singles || r.chance(1, 3)))
    {
        t.cfg["dut"] = D_MAN;
        if (r.chance(1, 4)) { t.cfg["man"] = 1; }
        else
        {
            std::vector<int> d = {2, 3, 4, 5, 6};
            for (size_t i = d.size(); i > 1; --i) { std::swap(d[i - 1], d[r.below(i)]); }
            const size_t n = r.chance(1, 3) ? 5 : 1 + r.below(5);
            int64_t m = 0;
            for (size_t i = 0; i < n; ++i) { m = m * 10 + d[i]; }
            t.cfg["man"] = m;
        }
    }
    else { t.cfg["dut"] = r.chance(1, 2) ? D_OEM : r.range(D_BIN, D_ABB); }
    t.cfg["meta"] = r.range(0, 2);
}

void GenStream(Rng& r, Trace& t, bool thorough, bool damage, bool bigFalseStarts)
{
    const wire::Grammar g = GrammarOf(t);
    std::vector<unsigned> kinds, foreign;
    for (unsigned k = 1; k <= wire::PBIN; k <<= 1) { (g.mask & k ? kinds : foreign).push_back(k); }
    // swarm: a random subset of the recognised kinds
    std::vector<unsigned> use;
    for (auto k : kinds)
    {
        if (r.chance(2, 3)) { use.push_back(k); }
    }
    if (use.empty()) { use = kinds; }
    const size_t maxBody = r.pick({8, 40, 120, 400, thorough ? 4000 : 1200});
    const int64_t n = r.range(1, r.chance(1, 8) ? 24 : 8);
    std::string prev;
    const unsigned wDamage = damage ? static_cast<unsigned>(r.pick({1, 3, 5})) : 0, wGarbage = static_cast<unsigned>(r.pick({0, 1, 3})),
                   wFalse = damage ? static_cast<unsigned>(r.pick({0, 1, 3})) : 0, wForeign = foreign.empty() ? 0 : static_cast<unsigned>(r.pick({0, 1}));
    for (int64_t i = 0; i < n; ++i)
    {
        std::string m = wire::RandomFrame(r, r.pick(use), maxBody);
        switch (r.weighted({4, wDamage, wGarbage, wFalse, wForeign, damage ? 1u : 0u}))
        {
        case 0: t.add("seg", {1, 0}, m); break;
        case 1: {
            std::string what;
            std::string d = wire::Damage(r, m, prev, what);
            if (r.chance(1, 4))
            {
                std::string w2;
                d = wire::Damage(r, d, prev, w2);
            }
            if (!d.empty()) { t.add("seg", {0, KindId(what)}, d); }
            else { t.add("seg", {0, KindId("message_lost")}); }
            break;
        }
        case 2: {
            std::string b = r.chance(1, 2) ? wire::RandomBytes(r, 1 + r.below(r.chance(1, 4) ? 700 : 20)) : wire::RandomText(r, 1 + r.below(r.chance(1, 4) ? 700 : 20), true);
            if (r.chance(1, 3)) { b = std::string(1 + r.below(600), r.pick({'\0', 'x', '\n', ' ', '\xFF'})); }
            t.add("seg", {0, 1}, b);
            break;
        }
        case 3: {
            std::string b;
            switch (r.below(9))
            {
            case 0: b = std::string("\xAA\x44\x12", 1 + r.below(3)); break;
            case 1: b = std::string("\xAA\x44\x13", 1 + r.below(3)); break;
            case 2: b = std::string("\xAA\x45\x12", 1 + r.below(3)); break;
            case 3: b = r.pick({"#", "%", "$", "<", "{"}); break;
            case 4: b = r.pick({"#BESTPOSA,COM1,0", "%TIMESA,", "$GPGGA,", "<BESTPOS COM1", "<OK", "<ERROR", "$GPGGA*4", "#A*1234567", "< ", "<\r\n"}); break;
            case 5: // binary header with a length that reaches over what follows
            {
                b = wire::Binary("", 42, 2000, 1000);
                const uint16_t len = static_cast<uint16_t>(bigFalseStarts && r.chance(1, 10) ? r.below(65536) : r.below(600));
                b[8] = static_cast<char>(len);
                b[9] = static_cast<char>(len >> 8);
                b.resize(28);
                break;
            }
            case 6: // short binary
                b = wire::BinaryShort("", 42, 2000, 1000);
                b[3] = static_cast<char>(r.below(256));
                b.resize(12);
                break;
            case 7: b = std::string(1 + r.below(300), r.pick({'#', '%', '$', '<', '\xAA'})); break;
            default: b = m.substr(0, 1 + r.below(m.size())) + m.substr(0, 1 + r.below(m.size())); break;
            }
            t.add("seg", {0, KindId("false_start")}, b);
            break;
        }
        case 4: t.add("seg", {0, KindId("foreign_format")}, wire::RandomFrame(r, r.pick(foreign), std::min<size_t>(maxBody, 60))); break;
        default: // the link repeats or drops a whole message
            if (!prev.empty() && r.chance(1, 2)) { t.add("seg", {1, KindId("message_duplicated")}, prev); }
            else { t.add("seg", {0, KindId("message_lost")}); }
        }
        prev = m;
    }
}

void FitCapacity(Rng& r, Trace& t)
{
    // Append filler until every candidate in front of it is decided.
    const wire::Grammar g = GrammarOf(t);
    const std::string s = StreamOf(t);
    static const size_t steps[] = {300, 1500, 33000, 70000};
    for (size_t pad : steps)
    {
        std::string x = s + std::string(pad, 'x');
        wire::Parsed p = wire::Model(x, g);
        if (p.undecided >= s.size() + 40 || pad == 70000)
        {
            t.add("pad", {static_cast<int64_t>(pad)});
            int64_t cap = RECOMMENDED_FRAME_BUFFER_SIZE;
            const int64_t need = static_cast<int64_t>(p.maxNeed) + 320;
            if (t.get("dut") != D_MAN && p.undecided >= s.size() + 40 && r.chance(2, 3))
            {
                // a smaller internal buffer, so that it wraps and fills up in a short run
                cap = need + r.range(0, r.chance(1, 2) ? 64 : 3000);
                if (cap >= RECOMMENDED_FRAME_BUFFER_SIZE) { cap = RECOMMENDED_FRAME_BUFFER_SIZE; }
            }
            t.cfg["cap"] = cap;
            break;
        }
    }
}

void GenSchedule(Rng& r, Trace& t, const std::string& stream, bool gets)
{
    // message boundaries attract cuts
    std::vector<size_t> bounds;
    size_t pos = 0;
    for (auto& o : t.ops)
    {
        if (o.k == "seg")
        {
            pos += o.b.size();
            bounds.push_back(pos);
        }
    }
    const int style = static_cast<int>(r.below(6));
    const size_t limit = std::min<size_t>(stream.size(), pos + 320);
    size_t at = 0, ops = 0;
    const unsigned wGet = gets ? static_cast<unsigned>(r.pick({1, 4, 9})) : 0;
    while (at < limit && ops < 1500)
    {
        size_t n;
        switch (style)
        {
        case 0: n = 1; break;
        case 1: n = 1 + r.below(4); break;
        case 2: n = 1 + r.below(64); break;
        case 3: {
            // cut next to a boundary
            auto it = std::upper_bound(bounds.begin(), bounds.end(), at);
            const size_t b = it == bounds.end() ? limit : *it;
            const int64_t x = static_cast<int64_t>(b) + r.range(-14, 14);
            n = x > static_cast<int64_t>(at) ? static_cast<size_t>(x) - at : 1;
            break;
        }
        case 4: n = 1 + r.below(1000); break;
        default: n = r.chance(1, 2) ? 1 + r.below(3) : 1 + r.below(300);
        }
        n = std::min(n, stream.size() - at);
        if (style == 0 && limit > 1500 && r.chance(1, 2)) { n = 1 + r.below(limit / 400 + 1); }
        t.add("w", {static_cast<int64_t>(n)});
        at += n;
        ++ops;
        if (r.chance(wGet, 10)) { t.add(r.chance(1, 2) ? "d" : "g", {r.range(1, 3)}); }
    }
}
} // namespace fr
