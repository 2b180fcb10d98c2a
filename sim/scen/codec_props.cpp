// C09, C13, C19, C20: conversions of single messages under history, hostile contents and bounded output buffers.
#include "traffic.hpp"

#include <map>
#include <tuple>

namespace {
using namespace cd;
using sim::Ctx;
using sim::Lib;
using sim::Op;
using sim::Rng;
using sim::Trace;

const int kForms[] = {mdb::F_BIN, mdb::F_SBIN, mdb::F_ASC, mdb::F_SASC, mdb::F_ABB, mdb::F_SABB, mdb::F_JSON};
const ENCODE_FORMAT kTo[] = {ENCODE_FORMAT::BINARY, ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON, ENCODE_FORMAT::FLATTENED_BINARY};
std::string StName(int st) { return std::string(novatel::edie::StatusToString(static_cast<STATUS>(st))); }
bool OneOf(int st, std::initializer_list<STATUS> l)
{
    for (STATUS s : l)
    {
        if (st == static_cast<int>(s)) { return true; }
    }
    return false;
}
std::string Unref(const std::string& s) { return sim::Printable(s, 300); }

// ------------------------------------------------------------------ C09
// One set of components and result objects converts a whole history; each message is also converted alone by new
// components, with other contents in fresh memory, on the stack and behind the message.
struct HistoryFree : sim::Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        t.cfg["fillA"] = r.pick<int64_t>({0x00, 0xFF, 0x41, 0x31, 0x2C, 0xA5});
        t.cfg["fillB"] = r.pick<int64_t>({0x5A, 0x22, 0x30, 0x7F, 0x0A, 0x2A});
        t.cfg["keep_meta"] = r.chance(1, 2);
        const std::vector<unsigned> w = {6, 2, static_cast<unsigned>(r.below(4)), static_cast<unsigned>(1 + r.below(5)), static_cast<unsigned>(r.below(4)),
                                         static_cast<unsigned>(r.below(3)), static_cast<unsigned>(r.below(2)), static_cast<unsigned>(r.below(2))};
        const int n = static_cast<int>(r.range(2, thorough ? 20 : 9));
        const int same = r.chance(1, 3) ? kForms[r.below(7)] : -1;
        for (int i = 0; i < n; ++i)
        {
            auto a = RandomNums(r, same >= 0 && r.chance(2, 3) ? same : kForms[r.below(7)], w);
            a.push_back(static_cast<int64_t>(r.below(5)));   // output format
            a.push_back(r.chance(1, 8) ? static_cast<int64_t>(r.below(400)) : 0); // small output buffer
            t.add("m", a);
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        auto model = mdb::Make(static_cast<uint64_t>(t.get("db")));
        auto db = Lib([&] { return mdb::Load(*model); });
        const int fa = static_cast<int>(t.get("fillA")), fb = static_cast<int>(t.get("fillB"));
        sim::g_fill = fa;
        Node node(db);
        IntermediateHeader ih;
        CompositeField cf;
        MetaDataStruct lastMd;
        int done = 0, failures = 0;
        for (const Op& o : t.ops)
        {
            if (o.k != "m") { continue; }
            const Made m = MakeMsg(*model, o);
            if (m.frame.empty()) { continue; }
            const ENCODE_FORMAT to = kTo[((o.at(6) % 5) + 5) % 5];
            MetaDataStruct md = MetaFor(m.form, m.frame, m.response);
            MetaDataStruct dirty = md;
            if (t.get("keep_meta")) // a caller reusing its metadata object: what the framer sets is right, the rest is left over
            {
                dirty = lastMd;
                dirty.eFormat = md.eFormat;
                dirty.uiLength = md.uiLength;
                dirty.bResponse = md.bResponse;
            }
            const size_t outSize = static_cast<size_t>(std::max<int64_t>(0, o.at(7)));
            sim::g_fill = fa;
            sim::ScribbleStack(fa);
            const Out a = node.convert(m.frame, to, ih, cf, dirty, 96, static_cast<unsigned char>(fa), outSize);
            const std::string da = a.stage == 'E' || a.stage == 'D' ? Dump(cf) : "";
            lastMd = a.md;
            sim::g_fill = fb;
            sim::ScribbleStack(fb);
            Out b;
            std::string dbs;
            {
                Node fresh(db);
                IntermediateHeader ih2;
                CompositeField cf2;
                b = fresh.convert(m.frame, to, ih2, cf2, md, 96, static_cast<unsigned char>(fb), outSize);
                dbs = b.stage == 'E' || b.stage == 'D' ? Dump(cf2) : "";
            }
            c.calls += 2;
            c.simBytes += m.frame.size();
            c.ev("msg", {m.form, a.stage, a.st}, a.bytes);
            const std::string what = std::string(mdb::FormName(m.form)) + " message '" + Unref(m.frame) + "' after " + std::to_string(done) + " others (" + std::to_string(failures) + " of them failed): ";
            c.check(a.stage == b.stage && a.st == b.st && a.thrown == b.thrown, "C09:status", what + "with history: " + a.show() + "; alone: " + b.show());
            if (!a.same(b)) { c.fail("C09:output", what + "output with history '" + Unref(a.bytes) + "', alone '" + Unref(b.bytes) + "'"); }
            if (a.stage != 'H')
            {
                c.check(DumpHdr(a.ih) == DumpHdr(b.ih), "C09:header", what + "header with history " + DumpHdr(a.ih) + ", alone " + DumpHdr(b.ih));
                c.check(DumpMeta(a.md) == DumpMeta(b.md), "C09:metadata", what + "metadata with history " + DumpMeta(a.md) + ", alone " + DumpMeta(b.md));
            }
            c.check(da == dbs, "C09:fields", what + "fields with history " + da.substr(0, 600) + ", alone " + dbs.substr(0, 600));
            ++done;
            if (a.stage != 'D')
            {
                ++failures;
                c.fault(a.stage == 'E' ? "encoding_refused" : "decoding_refused");
            }
        }
        sim::g_fill = -1;
        c.fault("memory_refilled", static_cast<uint64_t>(done));
        c.nontrivial = done > 1 ? static_cast<uint64_t>(done) : 0;
    }
};
SIM_SCENARIO("C09", HistoryFree)

// ------------------------------------------------------------------ C13
struct Counting : sim::Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(60));
        const int n = static_cast<int>(r.range(3, thorough ? 40 : 16));
        const std::vector<unsigned> w = {6, 0, 2, 2, 2};
        const int64_t few = static_cast<int64_t>(r.below(3)) + 1;
        for (int i = 0; i < n; ++i)
        {
            if (r.chance(1, 10))
            {
                t.add("reset");
                continue;
            }
            auto a = RandomNums(r, kForms[r.below(7)], w);
            if (r.chance(1, 2)) { a[0] %= few; }
            t.add("m", a);
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        auto model = mdb::Make(static_cast<uint64_t>(t.get("db")));
        auto db = Lib([&] { return mdb::Load(*model); });
        novatel::edie::oem::HeaderDecoder hd(db);
        using Key = std::tuple<int, int, int>;
        std::map<Key, uint64_t> want;
        IntermediateHeader ih;
        MetaDataStruct md;
        uint64_t counted = 0;
        for (const Op& o : t.ops)
        {
            if (o.k == "reset")
            {
                hd.ResetMessageCounts();
                want.clear();
                c.fault("counts_reset");
            }
            else if (o.k == "m")
            {
                const Made m = MakeMsg(*model, o);
                sim::GuardedBuf in(m.frame.size());
                std::memcpy(in.data(), m.frame.data(), m.frame.size());
                const MetaDataStruct f = MetaFor(m.form, m.frame, m.response);
                md.eFormat = f.eFormat, md.uiLength = f.uiLength, md.bResponse = f.bResponse;
                const STATUS st = Lib([&] { return hd.Decode(in.data(), ih, md); });
                ++c.calls;
                c.ev("hdr", {m.form, static_cast<int64_t>(st), ih.usMessageId});
                if (m.valid)
                {
                    c.check(st == STATUS::SUCCESS, "C13:status", std::string("header of a valid ") + mdb::FormName(m.form) + " message refused: " + StName(static_cast<int>(st)));
                    // an abbreviated response names no message
                    if (!(m.response && m.form == mdb::F_ABB))
                    {
                        const bool typed = m.form != mdb::F_SBIN;
                        ++want[Key{m.h.id, static_cast<int>(f.eFormat), typed ? m.h.type & 0x1F : 0}];
                        ++counted;
                    }
                }
                else
                {
                    c.fault("damaged_message");
                    if (st == STATUS::SUCCESS && ih.usMessageId > 0 && !(md.bResponse && md.eFormat == HEADER_FORMAT::ABB_ASCII))
                    {
                        ++want[Key{ih.usMessageId, static_cast<int>(md.eFormat), ih.ucMessageType & 0x1F}];
                    }
                }
            }
            else { continue; }
            std::map<Key, uint64_t> got;
            for (const auto& [k, v] : hd.GetMessageCounts()) { got[Key{std::get<0>(k), static_cast<int>(std::get<1>(k)), std::get<2>(k)}] = v; }
            if (got != want)
            {
                std::string s;
                for (auto& [k, v] : got)
                {
                    if (!want.count(k) || want[k] != v) { s += " got " + std::to_string(std::get<0>(k)) + "/" + std::to_string(std::get<1>(k)) + "/" + std::to_string(std::get<2>(k)) + " x" + std::to_string(v); }
                }
                for (auto& [k, v] : want)
                {
                    if (!got.count(k) || got[k] != v) { s += " want " + std::to_string(std::get<0>(k)) + "/" + std::to_string(std::get<1>(k)) + "/" + std::to_string(std::get<2>(k)) + " x" + std::to_string(v); }
                }
                c.fail("C13:counts", "message counts differ from the messages decoded (id/format/sibling):" + s);
            }
        }
        c.nontrivial = counted > 1 ? counted : 0;
    }
};
SIM_SCENARIO("C13-header", Counting)

// ------------------------------------------------------------------ C19
struct OutBuffer : sim::Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        const int n = static_cast<int>(r.range(1, thorough ? 4 : 2));
        for (int i = 0; i < n; ++i)
        {
            auto a = RandomNums(r, kForms[r.below(7)], {5, 2, 2, 2, 0, 1, 1, 2});
            a.push_back(static_cast<int64_t>(r.below(5)));
            a.push_back(static_cast<int64_t>(r.below(1u << 30)));
            t.add("m", a);
        }
    }
    struct Part
    {
        int st;
        std::string bytes, hdr, body, thrown;
        bool bad = false;
    };
    // whole: 0 message, 1 header only, 2 header then body
    static Part Enc(Node& n, const IntermediateHeader& ih, const CompositeField& cf, HEADER_FORMAT hf, ENCODE_FORMAT to, size_t size, int whole)
    {
        Part p;
        sim::GuardedBuf out(size, 0xEE);
        unsigned char* q = out.data();
        MessageDataStruct ms;
        try
        {
            if (whole == 0) { p.st = static_cast<int>(Lib([&] { return n.enc.Encode(&q, static_cast<uint32_t>(size), ih, cf, ms, hf, to); })); }
            else
            {
                p.st = static_cast<int>(Lib([&] { return n.enc.EncodeHeader(&q, static_cast<uint32_t>(size), ih, ms, hf, to); }));
                if (p.st == 0 && whole == 2)
                {
                    const uint32_t hl = ms.uiMessageHeaderLength;
                    if (hl > size)
                    {
                        p.bad = true;
                        return p;
                    }
                    unsigned char* qb = q + hl;
                    p.st = static_cast<int>(
                        Lib([&] { return n.enc.EncodeBody(&qb, static_cast<uint32_t>(size) - hl, cf, cf.GetFieldInfo()->messageOrderedFields, ms, hf, to); }));
                    ms.uiMessageLength = hl + ms.uiMessageBodyLength;
                }
                else { ms.uiMessageLength = ms.uiMessageHeaderLength; }
                ms.pucMessage = q;
            }
            if (q != out.data()) { p.bad = true; }
            if (p.st == 0)
            {
                if (ms.pucMessage != out.data() || ms.uiMessageLength > size) { p.bad = true; }
                else { p.bytes.assign(reinterpret_cast<char*>(out.data()), ms.uiMessageLength); }
                auto part = [&](unsigned char* b, uint32_t l, std::string& s) {
                    if (!b || b < out.data() || b > out.data() + size || l > static_cast<size_t>(out.data() + size - b)) { p.bad = true; }
                    else { s.assign(reinterpret_cast<char*>(b), l); }
                };
                if (!p.bad && whole != 1)
                {
                    part(ms.pucMessageHeader, ms.uiMessageHeaderLength, p.hdr);
                    part(ms.pucMessageBody, ms.uiMessageBodyLength, p.body);
                }
            }
        }
        catch (const std::exception& e)
        {
            p.st = -1;
            p.thrown = std::string("exception ") + e.what();
        }
        return p;
    }
    void run(const Trace& t, Ctx& c) override
    {
        auto model = mdb::Make(static_cast<uint64_t>(t.get("db")));
        auto db = Lib([&] { return mdb::Load(*model); });
        Node node(db);
        uint64_t sizes = 0;
        for (const Op& o : t.ops)
        {
            if (o.k != "m") { continue; }
            const Made m = MakeMsg(*model, o);
            if (m.frame.empty()) { continue; }
            const ENCODE_FORMAT to = kTo[((o.at(6) % 5) + 5) % 5];
            MetaDataStruct md = MetaFor(m.form, m.frame, m.response);
            IntermediateHeader ih;
            CompositeField cf;
            sim::GuardedBuf in(m.frame.size());
            std::memcpy(in.data(), m.frame.data(), m.frame.size());
            try
            {
                if (Lib([&] { return node.hd.Decode(in.data(), ih, md); }) != STATUS::SUCCESS || md.uiHeaderLength > m.frame.size()) { continue; }
                if (Lib([&] { return node.md.Decode(in.data() + md.uiHeaderLength, cf, md); }) != STATUS::SUCCESS) { continue; }
            }
            catch (const std::exception&)
            {
                continue; // C20 decides that
            }
            for (int whole = 0; whole < 3; ++whole)
            {
                if (whole == 2 && (to == ENCODE_FORMAT::JSON || m.response)) { continue; }
                const Part full = Enc(node, ih, cf, md.eFormat, to, 400000, whole);
                c.check(!full.bad, "C19:parts", "the reported message, header or body does not lie inside the output buffer");
                if (full.st == -1) { c.fail("C19:throws", std::string("encoding to ") + std::to_string(static_cast<int>(to)) + " ends in " + full.thrown); }
                c.ev("full", {m.form, static_cast<int64_t>(to), full.st, whole}, full.bytes);
                if (full.st != 0)
                {
                    c.check(full.st != static_cast<int>(STATUS::BUFFER_FULL) || !m.valid, "C19:always-full", std::string("a 400000-byte buffer is reported full for a ") + std::to_string(m.frame.size()) + "-byte " +
                                                                                                  mdb::FormName(m.form) + " message");
                    continue;
                }
                if (whole == 0)
                {
                    const std::string want = Expected(*model, m, std::array<int, 5>{IsShort(m.form) ? mdb::F_SBIN : mdb::F_BIN, IsShort(m.form) ? mdb::F_SASC : mdb::F_ASC,
                                                                                    IsShort(m.form) ? mdb::F_SABB : mdb::F_ABB, mdb::F_JSON, mdb::F_FLAT}[static_cast<size_t>(((o.at(6) % 5) + 5) % 5)]);
                    if (!want.empty() && !(m.response && to != ENCODE_FORMAT::BINARY && to != ENCODE_FORMAT::ASCII && to != ENCODE_FORMAT::ABBREV_ASCII))
                    {
                        c.check(full.bytes == want, "C19:complete", "output of a large buffer '" + Unref(full.bytes) + "' is not the complete message '" + Unref(want) + "'");
                    }
                }
                const size_t n = full.bytes.size();
                std::vector<size_t> sz = {0, 1, n / 2, n > 8 ? n - 8 : 0, n + 1, n + 2, n + 3, n + 4, n + 17, n + 64};
                for (size_t k = 0; k <= 6; ++k) { sz.push_back(n >= k ? n - k : 0); }
                Rng r(static_cast<uint64_t>(o.at(7)) + 3);
                for (int k = 0; k < 60; ++k) { sz.push_back(r.below(n + 40)); }
                if (n < 400)
                {
                    for (size_t k = 0; k < n + 8; ++k) { sz.push_back(k); }
                }
                size_t okAt = SIZE_MAX, failAt = 0;
                for (size_t s : sz)
                {
                    const Part p = Enc(node, ih, cf, md.eFormat, to, s, whole);
                    ++c.calls;
                    ++sizes;
                    const std::string what = std::string(mdb::FormName(m.form)) + " to format " + std::to_string(static_cast<int>(to)) + (whole == 1 ? " (header)" : whole == 2 ? " (header and body)" : "") +
                                             " into " + std::to_string(s) + " of the " + std::to_string(n) + " bytes needed: ";
                    if (!p.thrown.empty()) { c.fail("C19:throws", what + p.thrown); }
                    c.check(!p.bad, "C19:parts", what + "the reported parts do not lie inside the buffer");
                    if (p.st == 0)
                    {
                        c.check(p.bytes == full.bytes && p.hdr == full.hdr && p.body == full.body, "C19:truncated", what + "success, but the output is '" + Unref(p.bytes) + "' instead of '" + Unref(full.bytes) + "'");
                        okAt = std::min(okAt, s);
                    }
                    else
                    {
                        c.check(p.st == static_cast<int>(STATUS::BUFFER_FULL), "C19:status", what + "answers " + StName(p.st));
                        c.fault("output_buffer_too_small");
                        failAt = std::max(failAt, s);
                    }
                }
                // a few bytes of working space are allowed, but a larger buffer never does worse
                c.check(failAt < okAt, "C19:monotonic", "a buffer of " + std::to_string(okAt) + " bytes suffices, one of " + std::to_string(failAt) + " bytes does not");
                c.check(failAt <= n + 16, "C19:wasteful", std::to_string(n) + " bytes do not fit into " + std::to_string(failAt));
            }
        }
        c.nontrivial = sizes;
    }
};
SIM_SCENARIO("C19-encode", OutBuffer)

// ------------------------------------------------------------------ C20
struct HostileBodies : sim::Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        const int n = static_cast<int>(r.range(1, thorough ? 12 : 6));
        for (int i = 0; i < n; ++i)
        {
            auto a = RandomNums(r, kForms[r.below(7)], {1, 1, 1, 12, 0});
            t.add("m", a);
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        auto model = mdb::Make(static_cast<uint64_t>(t.get("db")));
        auto db = Lib([&] { return mdb::Load(*model); });
        Node node(db);
        IntermediateHeader ih;
        CompositeField cf;
        uint64_t framed = 0;
        for (const Op& o : t.ops)
        {
            if (o.k != "m") { continue; }
            const Made m = MakeMsg(*model, o);
            Framed f;
            if (m.frame.empty() || !FrameIt(m.frame, m.form, f)) { continue; }
            ++framed;
            if (!m.valid) { c.fault("hostile_message"); }
            c.simBytes += f.bytes.size();
            sim::GuardedBuf in(f.bytes.size());
            std::memcpy(in.data(), f.bytes.data(), f.bytes.size());
            const std::string what = std::string(mdb::FormName(m.form)) + " message '" + sim::Printable(f.bytes, 500) + "': ";
            const uint64_t budget = 400000 + 4000 * static_cast<uint64_t>(f.bytes.size());
            char stage = 'H';
            try
            {
                MetaDataStruct md = f.md;
                STATUS st = sim::LibBudget(budget, [&] { return node.hd.Decode(in.data(), ih, md); });
                c.ev("hdr", {m.form, static_cast<int64_t>(st)});
                c.check(OneOf(static_cast<int>(st), {STATUS::SUCCESS, STATUS::FAILURE, STATUS::UNSUPPORTED, STATUS::UNKNOWN}), "C20:status", what + "header decoding answers " + StName(static_cast<int>(st)));
                if (st != STATUS::SUCCESS)
                {
                    c.probe("header_refused");
                    continue;
                }
                c.check(md.uiHeaderLength <= f.bytes.size(), "C20:header-length", what + "header length " + std::to_string(md.uiHeaderLength) + " reported");
                stage = 'M';
                st = sim::LibBudget(budget * 4, [&] { return node.md.Decode(in.data() + md.uiHeaderLength, cf, md); });
                c.ev("body", {m.form, static_cast<int64_t>(st)});
                c.check(OneOf(static_cast<int>(st), {STATUS::SUCCESS, STATUS::MALFORMED_INPUT, STATUS::NO_DEFINITION, STATUS::UNSUPPORTED}), "C20:status",
                        what + "message decoding answers " + StName(static_cast<int>(st)));
                if (st != STATUS::SUCCESS)
                {
                    c.probe("message_refused");
                    continue;
                }
                c.probe("message_decoded");
                stage = 'A';
                c.ev("dump", {}, Dump(cf));
                stage = 'E';
                for (ENCODE_FORMAT to : kTo)
                {
                    sim::GuardedBuf out(300000, 0xEE);
                    MessageDataStruct ms;
                    unsigned char* p = out.data();
                    st = sim::LibBudget(budget * 20 + 40000000, [&] { return node.enc.Encode(&p, static_cast<uint32_t>(out.size()), ih, cf, ms, md.eFormat, to); });
                    ++c.calls;
                    c.ev("enc", {static_cast<int64_t>(to), static_cast<int64_t>(st)}, st == STATUS::SUCCESS ? std::string_view(reinterpret_cast<char*>(ms.pucMessage), ms.uiMessageLength) : std::string_view());
                    c.check(OneOf(static_cast<int>(st), {STATUS::SUCCESS, STATUS::BUFFER_FULL, STATUS::UNSUPPORTED, STATUS::MALFORMED_INPUT}), "C20:status",
                            what + "encoding to format " + std::to_string(static_cast<int>(to)) + " answers " + StName(static_cast<int>(st)));
                }
            }
            catch (const sim::Violation&)
            {
                throw;
            }
            catch (const std::exception& e)
            {
                c.fail(std::string("C20:throws-") + stage, what + (stage == 'H' ? "header decoding" : stage == 'M' ? "message decoding" : stage == 'A' ? "reading the fields" : "encoding") + " ends in an exception: " + e.what());
            }
        }
        c.nontrivial = framed;
    }
};
SIM_SCENARIO("C20", HostileBodies)
} // namespace
