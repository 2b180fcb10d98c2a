// C10, C11, C13 (parser part): the real parser and file parser, driven by a simulated link or input stream, against a
// reference pipeline assembled from freshly created stages: one framer fed the same bytes, a new header decoder, message
// decoder and encoder for every message, and a filter configured the same way.
#include "traffic.hpp"

#include "novatel_edie/decoders/oem/file_parser.hpp"

#include <algorithm>
#include <cstdio>
#include <istream>
#include <map>
#include <streambuf>
#include <tuple>

namespace {
using namespace cd;
using novatel::edie::oem::FileParser;
using novatel::edie::oem::Filter;
using novatel::edie::oem::Framer;
using novatel::edie::oem::Parser;
using novatel::edie::oem::RangeDecompressor;
using sim::Ctx;
using sim::Lib;
using sim::Op;
using sim::Rng;
using sim::Trace;

std::string StName(STATUS s) { return std::string(novatel::edie::StatusToString(s)); }

struct Options
{
    bool unknown = true, ignoreAbb = true;
    ENCODE_FORMAT to = ENCODE_FORMAT::ASCII;
    Filter::Ptr filter;
    bool decompress = false;
};
// One delivered thing, as the caller sees it
struct Res
{
    STATUS st = STATUS::BUFFER_EMPTY;
    std::string bytes, hdr, body; // message and its parts
    bool parts = true;            // header and body parts were reported (not null)
    std::string inter;            // decoded header and fields (intermediate reads)
    std::string meta;
    std::string show() const
    {
        return StName(st) + " '" + sim::Printable(bytes, 160) + "' header " + std::to_string(hdr.size()) + " body " + std::to_string(body.size()) + (parts ? "" : " (no parts)") + " " + meta + " " +
               inter.substr(0, 200);
    }
    bool operator==(const Res& o) const { return st == o.st && bytes == o.bytes && hdr == o.hdr && body == o.body && parts == o.parts && inter == o.inter && meta == o.meta; }
};
using CountKey = std::tuple<int, int, int>; // message id, format, sibling

struct OtherBusiness // a forged message claims to be a configuration log: see C24
{
};
struct Pipe
{
    DbPtr db;
    Framer fr;
    std::unique_ptr<sim::GuardedBuf> buf = std::make_unique<sim::GuardedBuf>(Parser::uiParserInternalBufferSize, 0xEE);
    std::unique_ptr<sim::GuardedBuf> big = std::make_unique<sim::GuardedBuf>(size_t{70000}, 0xEE);
    std::map<CountKey, uint64_t> counts;
    uint64_t framed = 0, headersRefused = 0, bodiesRefused = 0, filtered = 0, ignored = 0, unencodable = 0, undefined = 0, oversize = 0, cut = 0, responses = 0, decompressed = 0, undecompressable = 0;
    // range decompression has a history; everything else is made anew for every message
    std::unique_ptr<RangeDecompressor> rd;
    // unknown bytes come in pieces as long as the longest message so far permits; how they are divided means nothing
    size_t pieces = Parser::uiParserInternalBufferSize;

    explicit Pipe(DbPtr d) : db(std::move(d)) { forget(); }
    void forget()
    {
        Lib([&] { rd = std::make_unique<RangeDecompressor>(db); });
    }
    static bool compressed(const MetaDataStruct& md)
    {
        // logs 140 to 2537 of either antenna; neither responses nor other siblings
        static const int ids[] = {140, 1273, 1734, 2050, 2537};
        return std::find(std::begin(ids), std::end(ids), md.usMessageId) != std::end(ids) && md.ucSiblingId < 2;
    }
    Res next(const Options& o, bool incomplete, bool intermediate)
    {
        for (;;)
        {
            Res r;
            MetaDataStruct md;
            unsigned char* f = buf->data();
            if (pieces > buf->size()) { f = big->data(); }
            STATUS st = Lib([&] { return fr.GetFrame(f, static_cast<uint32_t>(pieces), md); });
            if (st == STATUS::BUFFER_FULL)
            {
                // a message longer than the usual buffer: take it with a larger one
                ++oversize;
                pieces = std::max<size_t>(pieces, md.uiLength);
                f = big->data();
                st = Lib([&] { return fr.GetFrame(f, static_cast<uint32_t>(big->size()), md); });
                if (st == STATUS::BUFFER_FULL) { throw std::runtime_error("a framed message longer than 70000 bytes"); }
            }
            if (incomplete && st == STATUS::INCOMPLETE && (md.eFormat == HEADER_FORMAT::ABB_ASCII || md.eFormat == HEADER_FORMAT::SHORT_ABB_ASCII))
            {
                const uint32_t n = Lib([&] { return fr.Flush(f, static_cast<uint32_t>(buf->size())); });
                if (n > 0)
                {
                    ++cut;
                    st = STATUS::SUCCESS;
                    md.uiLength = n;
                }
            }
            if (st == STATUS::INCOMPLETE || st == STATUS::BUFFER_EMPTY) { return r; }
            auto unknown = [&] {
                r = Res();
                r.st = STATUS::UNKNOWN;
                r.parts = false;
                r.bytes.assign(reinterpret_cast<char*>(f), md.uiLength);
                return r;
            };
            if (st == STATUS::UNKNOWN)
            {
                if (o.unknown && md.uiLength) { return unknown(); }
                continue;
            }
            if (st != STATUS::SUCCESS) { throw std::runtime_error("the framer answers " + StName(st)); }
            ++framed;
            if (md.bResponse && md.eFormat == HEADER_FORMAT::ABB_ASCII && o.ignoreAbb)
            {
                ++ignored;
                continue;
            }
            std::string frame(reinterpret_cast<char*>(f), md.uiLength);
            Node n(db);
            IntermediateHeader ih;
            CompositeField cf;
            sim::GuardedBuf tight(frame.size(), 0);
            unsigned char* in = tight.data();
            std::memcpy(in, frame.data(), frame.size());
            st = Lib([&] { return n.hd.Decode(in, ih, md); });
            if (st != STATUS::SUCCESS)
            {
                ++headersRefused;
                if (o.unknown) { return unknown(); }
                continue;
            }
            if (md.bResponse) { ++responses; }
            if (md.usMessageId == 128 || md.usMessageId == 2474) { throw OtherBusiness(); }
            for (const auto& k : n.hd.GetMessageCounts()) { counts[{static_cast<int>(std::get<0>(k.first)), static_cast<int>(std::get<1>(k.first)), static_cast<int>(std::get<2>(k.first))}] += k.second; }
            if (o.filter && !Lib([&] { return o.filter->DoFiltering(md); }))
            {
                ++filtered;
                continue;
            }
            std::unique_ptr<sim::GuardedBuf> wide;
            if (o.decompress && compressed(md))
            {
                wide = std::make_unique<sim::GuardedBuf>(std::max<size_t>(frame.size(), Parser::uiParserInternalBufferSize), 0xEE);
                std::memcpy(wide->data(), frame.data(), frame.size());
                in = wide->data();
                st = Lib([&] { return rd->Decompress(in, Parser::uiParserInternalBufferSize, md); });
                if (st != STATUS::SUCCESS)
                {
                    ++undecompressable;
                    r.st = st;
                    return r;
                }
                ++decompressed;
                ih.usMessageId = md.usMessageId;
                frame.assign(reinterpret_cast<char*>(in), md.uiLength);
            }
            st = Lib([&] { return n.md.Decode(in + md.uiHeaderLength, cf, md); });
            if (st != STATUS::SUCCESS && st != STATUS::NO_DEFINITION)
            {
                ++bodiesRefused;
                if (o.unknown) { return unknown(); }
                continue;
            }
            r.st = st;
            r.meta = DumpMeta(md);
            if (st == STATUS::NO_DEFINITION) { ++undefined; }
            if (intermediate || st == STATUS::NO_DEFINITION)
            {
                r.bytes = frame;
                r.hdr = frame.substr(0, md.uiHeaderLength);
                r.body = frame.substr(md.uiHeaderLength);
                if (intermediate) { r.inter = DumpHdr(ih) + (st == STATUS::SUCCESS ? Dump(cf) : ""); }
                return r;
            }
            sim::GuardedBuf out(Parser::uiParserInternalBufferSize, 0xEE);
            unsigned char* p = out.data();
            MessageDataStruct ms;
            st = Lib([&] { return n.enc.Encode(&p, static_cast<uint32_t>(out.size()), ih, cf, ms, md.eFormat, o.to); });
            if (st != STATUS::SUCCESS)
            {
                ++unencodable;
                continue;
            }
            r.bytes.assign(reinterpret_cast<char*>(ms.pucMessage), ms.uiMessageLength);
            r.hdr.assign(reinterpret_cast<char*>(ms.pucMessageHeader), ms.uiMessageHeaderLength);
            r.body.assign(reinterpret_cast<char*>(ms.pucMessageBody), ms.uiMessageBodyLength);
            return r;
        }
    }
};
// what the caller of the real thing was given
Res Seen(STATUS st, const MessageDataStruct& ms, const IntermediateHeader& ih, const CompositeField& cf, const MetaDataStruct& md, bool intermediate, Ctx& c, const std::string& P)
{
    Res r;
    r.st = st;
    if (st != STATUS::SUCCESS && st != STATUS::UNKNOWN && st != STATUS::NO_DEFINITION) { return r; }
    c.check(ms.pucMessage != nullptr && ms.uiMessageLength <= 70000, (P + ":message-data").c_str(), "a result (" + StName(st) + ") without message bytes");
    r.bytes.assign(reinterpret_cast<char*>(ms.pucMessage), ms.uiMessageLength);
    r.parts = ms.pucMessageHeader != nullptr && ms.pucMessageBody != nullptr;
    if (st == STATUS::UNKNOWN)
    {
        c.check(ms.pucMessageHeader == nullptr && ms.pucMessageBody == nullptr && ms.uiMessageHeaderLength == 0 && ms.uiMessageBodyLength == 0, (P + ":message-data").c_str(),
                "unknown bytes are delivered together with message parts of an earlier result (header " + std::to_string(ms.uiMessageHeaderLength) + ", body " + std::to_string(ms.uiMessageBodyLength) + " bytes)");
        r.parts = false;
        return r;
    }
    auto part = [&](const unsigned char* q, uint32_t n) {
        const bool in = q >= ms.pucMessage && q <= ms.pucMessage + ms.uiMessageLength && n <= static_cast<size_t>(ms.pucMessage + ms.uiMessageLength - q);
        c.check(in, (P + ":message-data").c_str(), "the reported message parts do not lie inside the message (" + StName(st) + ", " + std::to_string(n) + " bytes at " + std::to_string(q - ms.pucMessage) + " of the " + std::to_string(ms.uiMessageLength) + " bytes '" + sim::Printable(r.bytes, 100) + "'; " + DumpMeta(md) + ")");
        return std::string(reinterpret_cast<const char*>(q), n);
    };
    r.hdr = part(ms.pucMessageHeader, ms.uiMessageHeaderLength);
    r.body = part(ms.pucMessageBody, ms.uiMessageBodyLength);
    r.meta = DumpMeta(md);
    if (intermediate) { r.inter = DumpHdr(ih) + (st == STATUS::SUCCESS ? Dump(cf) : ""); }
    return r;
}

// ---- the recorded traffic
std::string LongText(int64_t len, int64_t seed)
{
    // a well-formed ASCII message of exactly this many bytes; nobody defines its name
    const std::string head = "LONGTEXTA,COM1,0,70.0,FINESTEERING,2200,1000.000,02000000,5d39,16809;";
    const size_t n = static_cast<size_t>(std::clamp<int64_t>(len, 200, 32777)) - head.size() - 12;
    Rng r(static_cast<uint64_t>(seed) + 3);
    std::string b;
    while (b.size() < n) { b += static_cast<char>('a' + r.below(26)); }
    return wire::Ascii(head + b);
}
const std::vector<unsigned> kKinds = {7, 1, 2, 2, 2};
struct Source
{
    std::shared_ptr<const mdb::Db> own, foreign;
    bool clean = true; // only well-formed messages so far
    std::string last;
    std::map<int64_t, std::vector<std::string>> recordings;
    // bytes of a data operation; "" if it is not one. m is set for intact messages of the own model
    std::string bytes(const Op& o, Ctx& c, std::unique_ptr<Made>& m)
    {
        m.reset();
        if (o.k == "m" || o.k == "x")
        {
            const Made made = MakeMsg(o.k == "m" ? *own : *foreign, o);
            std::string b = made.frame;
            const int64_t f = o.at(6);
            if (o.k == "x" || !made.valid || f) { clean = false; }
            if (f == 1)
            {
                Rng r(static_cast<uint64_t>(o.at(7)) + 7);
                std::string what;
                b = wire::Damage(r, b, last.empty() ? b : last, what);
                c.fault(what.c_str());
            }
            else if (f == 2)
            {
                c.fault("message_lost");
                b.clear();
            }
            else if (f == 3)
            {
                c.fault("message_duplicated");
                b += b;
            }
            else if (f == 4 && !b.empty())
            {
                c.fault("message_cut");
                b.resize(static_cast<uint64_t>(o.at(7)) % b.size());
            }
            else if (o.k == "m" && made.valid) { m = std::make_unique<Made>(made); }
            if (o.k == "x") { c.fault("foreign_definition"); }
            if (made.form == mdb::F_JSON) { clean = false; }
            last = made.frame;
            return b;
        }
        if (o.k == "g")
        {
            clean = false;
            c.fault("line_noise");
            Rng r(static_cast<uint64_t>(o.at(0)) + 1);
            return o.at(2) ? wire::RandomText(r, static_cast<size_t>(std::clamp<int64_t>(o.at(1), 0, 80000)), true) : wire::RandomBytes(r, static_cast<size_t>(std::clamp<int64_t>(o.at(1), 0, 80000)));
        }
        if (o.k == "f")
        {
            clean = false;
            Rng r(static_cast<uint64_t>(o.at(0)) + 1);
            const unsigned kinds[] = {wire::NMEA, wire::PBIN, wire::ABB, wire::ASC, wire::BIN, wire::SASC, wire::SBIN};
            const std::string b = wire::RandomFrame(r, kinds[static_cast<uint64_t>(o.at(1)) % 7], 300);
            // observation and configuration logs are the business of C14 and C24
            static const uint16_t special[] = {128, 140, 1273, 1734, 2050, 2474, 2537};
            const uint16_t id = b.size() > 6 ? static_cast<uint16_t>(static_cast<unsigned char>(b[4]) | (static_cast<unsigned char>(b[5]) << 8)) : 0;
            return b[0] == '\xaa' && std::find(std::begin(special), std::end(special), id) != std::end(special) ? "" : b;
        }
        if (o.k == "rc") // part of a recording of compressed observations; parts may be lost or come again
        {
            clean = false;
            auto& rec = recordings[o.at(0)];
            if (rec.empty()) { rec = RangeRecording(*own, static_cast<uint64_t>(o.at(0)), 8); }
            return rec[static_cast<uint64_t>(o.at(1)) % rec.size()];
        }
        if (o.k == "long")
        {
            clean = false;
            c.fault("message_at_length_limit");
            return LongText(o.at(0), o.at(1));
        }
        return "";
    }
};
void GenData(Rng& r, Trace& t, int clean)
{
    static const int forms[] = {mdb::F_BIN, mdb::F_SBIN, mdb::F_ASC, mdb::F_SASC, mdb::F_ABB, mdb::F_SABB, mdb::F_JSON};
    if (clean) // 1: long headers, 2: short ones
    {
        const bool sh = clean == 2;
        std::vector<int64_t> v = RandomNums(r, sh ? std::vector<int>{mdb::F_SBIN, mdb::F_SASC, mdb::F_SABB}[r.below(3)] : std::vector<int>{mdb::F_BIN, mdb::F_ASC, mdb::F_ABB}[r.below(3)], {8, 1, 0});
        if (!sh && v[3] != mdb::F_ABB && r.chance(1, 6)) { v[4] = K_RESPONSE; }
        t.add("m", v);
        return;
    }
    const size_t k = r.weighted({30, 3, 4, 4, 1, t.get("range") ? 30u : 0u});
    if (k == 5)
    {
        int64_t at = t.get("rangeAt");
        t.add("rc", {t.get("range"), at});
        t.cfg["rangeAt"] = at + (r.chance(1, 6) ? r.range(0, 2) : 1);
        return;
    }
    if (k == 0 || k == 1)
    {
        std::vector<int64_t> v = RandomNums(r, forms[r.below(r.chance(1, 12) ? 7 : 6)], kKinds);
        v.push_back(static_cast<int64_t>(r.weighted({10, 2, 1, 1, 1})));
        v.push_back(static_cast<int64_t>(r.below(1u << 30)));
        t.add(k == 0 ? "m" : "x", v);
    }
    else if (k == 2) { t.add("g", {static_cast<int64_t>(r.below(1u << 30)), r.chance(1, 30) ? r.range(30000, 70000) : r.range(1, 60), r.chance(1, 2)}); }
    else if (k == 3) { t.add("f", {static_cast<int64_t>(r.below(1u << 30)), static_cast<int64_t>(r.below(7))}); }
    else { t.add("long", {r.range(32750, 32777), static_cast<int64_t>(r.below(1u << 30))}); }
}
const ENCODE_FORMAT kTo[] = {ENCODE_FORMAT::ASCII, ENCODE_FORMAT::BINARY, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON, ENCODE_FORMAT::FLATTENED_BINARY};
const int kToForm[] = {mdb::F_ASC, mdb::F_BIN, mdb::F_ABB, mdb::F_JSON, mdb::F_FLAT};
void SetFilterRule(Filter& f, const Op& o, const mdb::Db& db)
{
    const uint64_t v = static_cast<uint64_t>(o.at(2));
    // above 40: the observation logs at the end of the list
    const size_t which = v < 40 || db.msgs.size() < 6 ? v % db.msgs.size() : db.msgs.size() - 1 - v % 6;
    switch (static_cast<uint64_t>(o.at(1)) % 9)
    {
    case 0: f.IncludeMessageId(db.msgs[which].id); break;
    case 1: f.IncludeMessageName(db.msgs[which].name); break;
    case 2: f.InvertMessageIdFilter(v & 1); break;
    case 3: f.IncludeResponses(v & 1); break;
    case 4: f.IncludeNonResponses(v & 1); break;
    case 5: f.IncludeTimeStatus(novatel::edie::TIME_STATUS::FINESTEERING); break;
    case 6: f.SetIncludeDecimationMs(static_cast<uint32_t>(1 + v % 3)); break;
    case 7: f.IncludeNmeaMessages(v & 1); break;
    default: f.ClearFilters(); break;
    }
}
bool SetOption(const Op& o, Options& op, const mdb::Db& db, Parser* p, FileParser* fp)
{
    const uint64_t v = static_cast<uint64_t>(o.at(1));
    switch (static_cast<uint64_t>(o.at(0)) % 6)
    {
    case 0:
        op.unknown = v & 1;
        Lib([&] { p ? p->SetReturnUnknownBytes(op.unknown) : fp->SetReturnUnknownBytes(op.unknown); });
        return true;
    case 1:
        op.ignoreAbb = v & 1;
        Lib([&] { p ? p->SetIgnoreAbbreviatedAsciiResponses(op.ignoreAbb) : fp->SetIgnoreAbbreviatedAsciiResponses(op.ignoreAbb); });
        return true;
    case 2:
        op.to = kTo[v % 5];
        Lib([&] { p ? p->SetEncodeFormat(op.to) : fp->SetEncodeFormat(op.to); });
        return true;
    case 3: // a filter object of its own for each side, so that sharing is not assumed; rules may change while it is set
        if (!op.filter) { op.filter = std::make_shared<Filter>(); }
        {
            auto given = p ? p->GetFilter() : fp->GetFilter();
            if (!given)
            {
                given = std::make_shared<Filter>();
                op.filter = std::make_shared<Filter>();
                Lib([&] { p ? p->SetFilter(given) : fp->SetFilter(given); });
            }
            SetFilterRule(*given, o, db);
            SetFilterRule(*op.filter, o, db);
        }
        return true;
    case 5:
        op.decompress = v & 1;
        Lib([&] { p ? p->SetDecompressRangeCmp(op.decompress) : fp->SetDecompressRangeCmp(op.decompress); });
        return true;
    default:
        op.filter.reset();
        Lib([&] { p ? p->SetFilter(nullptr) : fp->SetFilter(nullptr); });
        return true;
    }
}
void GenOption(Rng& r, Trace& t) { t.add("opt", {static_cast<int64_t>(r.weighted({2, 2, 3, 5, 1, t.get("range") ? 3u : 0u})), static_cast<int64_t>(r.below(9)), static_cast<int64_t>(r.below(t.get("range") ? 60 : 40))}); }

// things delivered, with adjacent unknown bytes joined, so that sequences can be compared whatever the pieces were
struct Seq
{
    std::vector<Res> v;
    void add(const Res& r)
    {
        if (r.st == STATUS::UNKNOWN && !v.empty() && v.back().st == STATUS::UNKNOWN)
        {
            v.back().bytes += r.bytes;
            return;
        }
        v.push_back(r);
    }
    // "" or what is wrong. partial: this may be the beginning of o
    std::string differs(const Seq& o, bool partial) const
    {
        for (size_t i = 0; i < v.size(); ++i)
        {
            if (i >= o.v.size()) { return "delivers something that is not there: " + v[i].show(); }
            if (v[i] == o.v[i]) { continue; }
            if (partial && i + 1 == v.size() && v[i].st == STATUS::UNKNOWN && o.v[i].st == STATUS::UNKNOWN && o.v[i].bytes.compare(0, v[i].bytes.size(), v[i].bytes) == 0) { return ""; }
            return "result " + std::to_string(i) + " is " + v[i].show() + " instead of " + o.v[i].show();
        }
        if (!partial && o.v.size() > v.size()) { return "misses " + o.v[v.size()].show(); }
        return "";
    }
};

struct ParserWorld : sim::Scenario
{
    std::string P = "C10";
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        t.cfg["dbx"] = static_cast<int64_t>(r.below(60));
        const int clean = r.chance(1, 4) ? static_cast<int>(r.range(1, 2)) : 0;
        const bool steady = P != "C07" && (r.chance(1, 2) || clean), whole = r.chance(1, 2); // no changes on the way; only whole conversions are read
        if (!clean && P != "C13" && r.chance(P == "C10" ? 1 : 2, 3)) { t.cfg["range"] = static_cast<int64_t>(1 + r.below(5000)); }
        if (t.get("range")) { t.add("opt", {5, r.chance(3, 4)}); }
        const int nOpt = static_cast<int>(r.below(4)) + (P == "C12" ? 2 : 0);
        for (int i = 0; i < nOpt; ++i)
        {
            if (clean) { t.add("opt", {static_cast<int64_t>(r.below(3)), static_cast<int64_t>(r.below(clean == 1 ? 4 : 3)), 0}); }
            else { GenOption(r, t); }
        }
        const int n = static_cast<int>(r.range(2, thorough ? 40 : 22));
        for (int i = 0; i < n; ++i)
        {
            GenData(r, t, clean);
            if (r.chance(1, 2)) { t.add("go", {r.pick<int64_t>({1, 2, 7, 40, 200, 4000, 100000}), static_cast<int64_t>(r.below(1u << 30)), static_cast<int64_t>(r.below(3)), !whole && r.chance(1, 3)}); }
            if (!steady && r.chance(1, 4)) { GenOption(r, t); }
            if (P == "C07" && r.chance(1, 8)) { t.add("fresh", {r.pick<int64_t>({1, 50, 32768, 300000}), r.chance(1, 3)}); }
            if (!steady && P != "C07" && r.chance(1, 14)) { t.add("flush", {r.pick<int64_t>({0, 1, 50, 32768, 300000}), r.chance(1, 3)}); }
            if (!steady && r.chance(1, 12)) { t.add("poll", {r.range(1, 4), static_cast<int64_t>(r.below(4))}); }
            if (P == "C13" && r.chance(1, 10)) { t.add("zero"); }
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        try
        {
            Run(t, c);
        }
        catch (const OtherBusiness&)
        {
            c.probe("given_up");
            c.nontrivial = 0;
        }
    }
    void Run(const Trace& t, Ctx& c)
    {
        Source src{mdb::Make(static_cast<uint64_t>(t.get("db")), t.get("range") ? mdb::RANGE_MSGS : 0), mdb::Make(static_cast<uint64_t>(t.get("dbx")) + 1000)};
        auto db = Lib([&] { return mdb::Load(*src.own); });
        auto dut = Lib([&] { return std::make_unique<Parser>(db); });
        dut->SetDecompressRangeCmp(false);
        auto refp = std::make_unique<Pipe>(db);

        Options op;
        MessageDataStruct ms; // the caller's objects live on, with whatever they held
        IntermediateHeader ih;
        CompositeField cf;
        MetaDataStruct md;
        Seq all;
        size_t delivered = 0;
        std::string pending, stream;
        std::vector<std::string> expected;
        bool steady = true;      // nothing but data since the start
        bool anyFilter = false;
        // one read of both; false: nothing more
        auto read = [&](bool intermediate, bool incomplete) {
            ++c.calls;
            STATUS st;
            if (intermediate) { st = Lib([&] { return dut->ReadIntermediate(ms, ih, cf, md, incomplete); }); }
            else { st = Lib([&] { return dut->Read(ms, md, incomplete); }); }
            const Res want = refp->next(op, incomplete, intermediate);
            c.ev("read", {static_cast<int64_t>(st), intermediate, incomplete}, st == STATUS::SUCCESS || st == STATUS::UNKNOWN ? std::string_view(reinterpret_cast<char*>(ms.pucMessage), std::min<uint32_t>(ms.uiMessageLength, 70000)) : std::string_view());
            c.check(st == want.st, (P + ":delivery").c_str(), "the parser answers " + StName(st) + " instead of " + want.show());
            const Res got = Seen(st, ms, ih, cf, md, intermediate, c, P);
            if (st == STATUS::BUFFER_EMPTY) { return false; }
            if (st != STATUS::SUCCESS && st != STATUS::UNKNOWN && st != STATUS::NO_DEFINITION)
            {
                all.add(got);
                return true; // an observation log that cannot be decompressed
            }
            if (P != "C13")
            {
                c.check(got.bytes == want.bytes, (P + ":content").c_str(), "the parser delivers " + got.show() + " instead of " + want.show());
                c.check(got == want, (P + ":details").c_str(), "the parser delivers " + got.show() + " instead of " + want.show());
            }
            if (st == STATUS::SUCCESS) { ++delivered; }
            all.add(got);
            return true;
        };
        auto counts = [&] {
            std::map<CountKey, uint64_t> got;
            for (const auto& k : Lib([&] { return dut->GetMessageCounts(); })) { got[{static_cast<int>(std::get<0>(k.first)), static_cast<int>(std::get<1>(k.first)), static_cast<int>(std::get<2>(k.first))}] = k.second; }
            if (got == refp->counts) { return; }
            std::string s;
            for (auto& k : refp->counts)
            {
                if (got[k.first] != k.second) { s += " message " + std::to_string(std::get<0>(k.first)) + " format " + std::to_string(std::get<1>(k.first)) + " sibling " + std::to_string(std::get<2>(k.first)) + ": " + std::to_string(got[k.first]) + " instead of " + std::to_string(k.second); }
            }
            for (auto& k : got)
            {
                if (!refp->counts.count(k.first) && k.second) { s += " message " + std::to_string(std::get<0>(k.first)) + ": " + std::to_string(k.second) + " instead of none"; }
            }
            c.check(s.empty(), (P + ":parser-counts").c_str(), "counts differ:" + s);
        };
        auto write = [&](const std::string& b) {
            size_t off = 0;
            while (off < b.size())
            {
                const size_t space = Lib([&] { return dut->GetAvailableSpace(); });
                c.check(space == refp->fr.GetAvailableSpace(), (P + ":space").c_str(), "the parser has room for " + std::to_string(space) + " bytes instead of " + std::to_string(refp->fr.GetAvailableSpace()));
                const size_t n = std::min(space, b.size() - off);
                if (n == 0)
                {
                    while (read(false, false)) {}
                    c.check(dut->GetAvailableSpace() > 0, (P + ":stuck").c_str(), "the buffer is full and the parser makes no progress");
                    continue;
                }
                const size_t w = Lib([&] { return dut->Write(reinterpret_cast<const unsigned char*>(b.data()) + off, n); });
                const size_t w2 = refp->fr.Write(reinterpret_cast<const unsigned char*>(b.data()) + off, n);
                c.check(w == w2, (P + ":write").c_str(), "Write accepts " + std::to_string(w) + " bytes");
                off += n;
            }
        };
        auto go = [&](int64_t piece, int64_t seed, int64_t poll, bool intermediate) {
            Rng r(static_cast<uint64_t>(seed) + 5);
            const std::string b = std::move(pending);
            pending.clear();
            c.simBytes += b.size();
            for (size_t off = 0; off < b.size();)
            {
                const size_t n = std::min(b.size() - off, static_cast<size_t>(r.range(1, std::max<int64_t>(piece, static_cast<int64_t>(b.size() / 300 + 1)))));
                write(b.substr(off, n));
                off += n;
                if (poll == 1 || (poll == 2 && r.chance(1, 3)))
                {
                    while (read(intermediate, false)) {}
                }
            }
        };
        bool sawIntermediate = false;
        uint64_t sessions = 0;
        for (const Op& o : t.ops)
        {
            std::unique_ptr<Made> m;
            const std::string b = src.bytes(o, c, m);
            if (!b.empty() || o.k == "m")
            {
                pending += b;
                stream += b;
                if (m)
                {
                    int to = -1;
                    for (int i = 0; i < 5; ++i)
                    {
                        if (kTo[i] == op.to) { to = kToForm[i]; }
                    }
                    if (IsShort(m->form)) { to = to == mdb::F_ASC ? mdb::F_SASC : to == mdb::F_BIN ? mdb::F_SBIN : to == mdb::F_ABB ? mdb::F_SABB : mdb::F_FLAT; }
                    if (!(m->response && m->form == mdb::F_ABB && op.ignoreAbb))
                    {
                        const std::string e = Expected(*src.own, *m, to);
                        if (e.empty() || e.size() > 30000) { src.clean = false; }
                        expected.push_back(e);
                    }
                }
            }
            else if (o.k == "go")
            {
                if (o.at(3)) { sawIntermediate = true; }
                go(std::max<int64_t>(1, o.at(0)), o.at(1), o.at(2), o.at(3) != 0);
            }
            else if (o.k == "opt")
            {
                if (!stream.empty()) { steady = false; }
                if (static_cast<uint64_t>(o.at(0)) % 5 == 3) { anyFilter = true; }
                SetOption(o, op, *src.own, dut.get(), nullptr);
                c.check(dut->GetReturnUnknownBytes() == op.unknown && dut->GetIgnoreAbbreviatedAsciiResponses() == op.ignoreAbb && dut->GetEncodeFormat() == op.to, (P + ":options").c_str(), "an option does not read back as set");
            }
            else if (o.k == "flush")
            {
                steady = false;
                const size_t n = static_cast<size_t>(std::clamp<int64_t>(o.at(0), 0, 300000));
                sim::GuardedBuf a(n, 0xEE), b2(n, 0xEE);
                const bool none = o.at(1) != 0;
                const uint32_t x = Lib([&] { return dut->Flush(none ? nullptr : a.data(), static_cast<uint32_t>(n)); });
                const uint32_t y = Lib([&] { return refp->fr.Flush(none ? nullptr : b2.data(), static_cast<uint32_t>(n)); });
                refp->forget();
                c.fault("flush");
                c.check(x == y && std::memcmp(a.data(), b2.data(), n) == 0, (P + ":flush").c_str(), "Flush returns " + std::to_string(x) + " bytes instead of " + std::to_string(y));
            }
            else if (o.k == "fresh") // everything is flushed: from here on the parser is to behave like a new one
            {
                steady = false;
                const size_t n = static_cast<size_t>(std::clamp<int64_t>(o.at(0), 1, 300000));
                sim::GuardedBuf a(n, 0xEE), b2(n, 0xEE);
                const bool none = o.at(1) != 0;
                for (;;)
                {
                    const uint32_t x = Lib([&] { return dut->Flush(none ? nullptr : a.data(), static_cast<uint32_t>(n)); });
                    const uint32_t y = Lib([&] { return refp->fr.Flush(none ? nullptr : b2.data(), static_cast<uint32_t>(n)); });
                    c.check(x == y && std::memcmp(a.data(), b2.data(), n) == 0, (P + ":flush").c_str(), "Flush returns " + std::to_string(x) + " bytes instead of " + std::to_string(y));
                    if (x == 0) { break; }
                }
                c.fault("flush");
                auto counted = std::move(refp->counts);
                const size_t pieces = refp->pieces;
                const uint64_t dec = refp->decompressed;
                if (dec) { c.probe("session_with_decompression"); }
                refp = std::make_unique<Pipe>(db);
                refp->counts = std::move(counted);
                refp->pieces = pieces;
                ++sessions;
            }
            else if (o.k == "poll")
            {
                steady = false;
                for (int64_t i = 0; i < std::min<int64_t>(o.at(0), 8); ++i) { read((o.at(1) & 1) != 0, (o.at(1) & 2) != 0); }
            }
            else if (o.k == "zero")
            {
                counts();
                Lib([&] { dut->ResetMessageCounts(); });
                refp->counts.clear();
            }
        }
        go(100000, 1, 0, false);
        while (read(false, false)) {}
        while (read(false, true)) {}
        counts();
        if (P == "C10")
        {
            sim::GuardedBuf a(300000, 0xEE), b2(300000, 0xEE);
            const uint32_t x = Lib([&] { return dut->Flush(a.data(), 300000); });
            const uint32_t y = Lib([&] { return refp->fr.Flush(b2.data(), 300000); });
            c.check(x == y && std::memcmp(a.data(), b2.data(), 300000) == 0, "C10:flush", "the bytes left at the end differ");
        }
        // the same stream in one go
        if (P == "C10" && steady && !sawIntermediate)
        {
            auto dut2 = Lib([&] { return std::make_unique<Parser>(db); });
            dut2->SetDecompressRangeCmp(false);
            Options op2;
            for (const Op& o : t.ops)
            {
                if (o.k == "opt") { SetOption(o, op2, *src.own, dut2.get(), nullptr); }
            }
            Seq whole;
            size_t off = 0;
            bool last = false;
            for (;;)
            {
                const size_t n = std::min(dut2->GetAvailableSpace(), stream.size() - off);
                if (n) { Lib([&] { return dut2->Write(reinterpret_cast<const unsigned char*>(stream.data()) + off, n); }); }
                off += n;
                const STATUS st = Lib([&] { return dut2->Read(ms, md, last); });
                if (st == STATUS::BUFFER_EMPTY)
                {
                    if (off < stream.size()) { continue; }
                    if (last) { break; }
                    last = true;
                    continue;
                }
                whole.add(Seen(st, ms, ih, cf, md, false, c, P));
            }
            const std::string d = all.differs(whole, false);
            c.check(d.empty(), "C10:segmentation", "delivered in pieces the parser " + d + " (delivered at once)");
            c.probe("delivered_twice");
            if (src.clean && !anyFilter)
            {
                size_t k = 0;
                for (auto& r : all.v)
                {
                    c.check(r.st == STATUS::SUCCESS && k < expected.size() && r.bytes == expected[k], "C10:messages",
                            "of a stream of well-formed messages the parser delivers " + r.show() + " instead of '" + (k < expected.size() ? sim::Printable(expected[k], 160) : "nothing") + "'");
                    ++k;
                }
                c.check(k == expected.size(), "C10:messages", "of " + std::to_string(expected.size()) + " well-formed messages only " + std::to_string(k) + " are delivered");
                if (k) { c.probe("independent_content"); }
            }
        }
        if (refp->filtered) { c.probe("filtered", refp->filtered); }
        if (refp->headersRefused) { c.probe("header_refused", refp->headersRefused); }
        if (refp->bodiesRefused) { c.probe("body_refused", refp->bodiesRefused); }
        if (refp->ignored) { c.probe("response_ignored", refp->ignored); }
        if (refp->responses) { c.probe("response", refp->responses); }
        if (refp->unencodable) { c.probe("cannot_be_encoded", refp->unencodable); }
        if (refp->decompressed) { c.probe("decompressed", refp->decompressed); }
        if (refp->undecompressable) { c.probe("decompression_refused", refp->undecompressable); }
        if (refp->undefined) { c.probe("no_definition", refp->undefined); }
        if (refp->oversize) { c.probe("over_32k", refp->oversize); }
        if (refp->cut) { c.probe("incomplete_abbreviated", refp->cut); }
        c.nontrivial = P == "C13" ? refp->counts.size() : P == "C12" ? (refp->filtered ? delivered : 0) : P == "C07" ? (sessions ? delivered : 0) : delivered;
    }
};
SIM_SCENARIO("C10", ParserWorld)
struct ParserCounts : ParserWorld
{
    ParserCounts() { P = "C13"; }
};
SIM_SCENARIO("C13-parser", ParserCounts)
struct ParserFilters : ParserWorld
{
    ParserFilters() { P = "C12"; }
};
SIM_SCENARIO("C12-parser", ParserFilters)
struct ParserFlushes : ParserWorld
{
    ParserFlushes() { P = "C07"; }
};
SIM_SCENARIO("C07-parser", ParserFlushes)

// ---- C11
// A recording behind an input stream with a will of its own. Events at byte positions: the stream has nothing more for
// now (the caller clears the condition later), or fails there with an exception from its buffer.
struct SimBuf : std::streambuf
{
    std::string data;
    std::vector<std::pair<size_t, int>> events; // position, kind: 0 stall, 1 error; each happens once per pass
    std::vector<bool> done;
    size_t pos = 0;
    int64_t chunk = 1000000;
    bool seekable = true, bulk = true;
    bool hit = false; // the reader has been told that there is nothing (more) since this was last cleared
    uint64_t stalls = 0, errors = 0;
    Rng r{1};
    std::string cur;

    size_t supplied() const { return pos - static_cast<size_t>(egptr() - gptr()); }
    int due() const // kind of the event at this position, -1: none
    {
        for (size_t i = 0; i < events.size(); ++i)
        {
            if (!done[i] && std::min(events[i].first, data.size()) == pos) { return events[i].second; }
        }
        return -1;
    }
    std::streamsize room() // bytes before the next event; an event that is due happens
    {
        size_t lim = data.size();
        for (size_t i = 0; i < events.size(); ++i)
        {
            const size_t p = std::min(events[i].first, data.size());
            if (done[i] || p < pos) { continue; }
            if (p == pos)
            {
                done[i] = true;
                hit = true;
                if (events[i].second == 1)
                {
                    ++errors;
                    throw std::runtime_error("simulated read error");
                }
                ++stalls;
                return 0;
            }
            lim = std::min(lim, p);
        }
        if (lim == pos) { hit = true; }
        return static_cast<std::streamsize>(lim - pos);
    }
    std::streamsize xsgetn(char* s, std::streamsize n) override
    {
        std::streamsize got = 0;
        while (got < n)
        {
            if (gptr() < egptr())
            {
                s[got++] = *gptr();
                gbump(1);
                continue;
            }
            if (got && due() >= 0) // what was read so far must not be lost in an exception; a short read means "no more"
            {
                hit = true;
                break;
            }
            if (bulk)
            {
                const std::streamsize k = std::min<std::streamsize>(room(), n - got);
                if (k == 0) { break; }
                std::memcpy(s + got, data.data() + pos, static_cast<size_t>(k));
                pos += static_cast<size_t>(k);
                got += k;
                continue;
            }
            if (underflow() == traits_type::eof()) { break; }
        }
        return got;
    }
    int_type underflow() override
    {
        if (gptr() < egptr()) { return traits_type::to_int_type(*gptr()); }
        const std::streamsize k = std::min<std::streamsize>(room(), r.range(1, chunk));
        if (k <= 0) { return traits_type::eof(); }
        cur = data.substr(pos, static_cast<size_t>(k));
        pos += static_cast<size_t>(k);
        setg(cur.data(), cur.data(), cur.data() + cur.size());
        return traits_type::to_int_type(cur[0]);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override
    {
        if (!seekable || p < 0 || static_cast<size_t>(p) > data.size()) { return pos_type(off_type(-1)); }
        pos = static_cast<size_t>(p);
        done.assign(events.size(), false);
        hit = false;
        setg(nullptr, nullptr, nullptr);
        return p;
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override
    {
        if (!seekable) { return pos_type(off_type(-1)); }
        const off_type base = d == std::ios::beg ? 0 : d == std::ios::cur ? static_cast<off_type>(supplied()) : static_cast<off_type>(data.size());
        return seekpos(base + o, m);
    }
};
struct SimStream : std::istream
{
    SimBuf b;
    SimStream() : std::istream(nullptr) { rdbuf(&b); }
};

struct FileWorld : sim::Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        t.cfg["dbx"] = static_cast<int64_t>(r.below(60));
        if (r.chance(1, 4)) { t.cfg["range"] = static_cast<int64_t>(1 + r.below(5000)); }
        const int nOpt = static_cast<int>(r.below(4));
        for (int i = 0; i < nOpt; ++i) { GenOption(r, t); }
        if (r.chance(1, 8)) { t.add("read", {2, 0}); }
        const int nRec = static_cast<int>(r.range(1, 3));
        for (int k = 0; k < nRec; ++k)
        {
            // a recording; its contents and events follow, then it is set
            const int clean = r.chance(1, 4) ? static_cast<int>(r.range(1, 2)) : 0;
            // seekable, longest buffer refill, bulk reads, seed
            t.add("rec", {r.chance(3, 4), r.pick<int64_t>({1, 3, 50, 1000, 40000, 1000000}), r.chance(1, 2), static_cast<int64_t>(r.below(1u << 30))});
            const int n = static_cast<int>(r.range(0, thorough ? 24 : 12));
            for (int i = 0; i < n; ++i) { GenData(r, t, clean); }
            if (r.chance(1, 40)) { t.add("g", {static_cast<int64_t>(r.below(1u << 30)), r.range(60000, 80000), r.chance(1, 2)}); }
            for (int64_t i = r.chance(1, 3) ? 0 : r.range(1, 3); i > 0; --i)
            {
                const int64_t at = static_cast<int64_t>(r.below(1001));
                const size_t e = r.weighted({3, 1, 2}); // stall, error, stall and error
                if (e != 1) { t.add("event", {at, 0}); }
                if (e != 0) { t.add("event", {at, 1}); }
            }
            t.add("set");
            for (int64_t i = r.range(0, 5); i > 0; --i)
            {
                switch (r.weighted({4, 3, 2, 2, 3, 2, 1}))
                {
                case 0: t.add("read", {r.range(1, 12), r.chance(1, 3)}); break;
                case 1: t.add("drain"); break;
                case 2: t.add("reset"); break;
                case 3: t.add("flush", {r.pick<int64_t>({0, 10, 32768, 300000}), r.chance(1, 4)}); break;
                case 4: t.add("clear"); break;
                case 5: t.add("bad", {static_cast<int64_t>(r.below(4))}); break;
                default: GenOption(r, t); break;
                }
            }
            t.add("drain");
            if (r.chance(1, 2))
            {
                t.add("clear");
                t.add("drain");
            }
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        try
        {
            Run(t, c);
        }
        catch (const OtherBusiness&)
        {
            c.probe("given_up");
            c.nontrivial = 0;
        }
    }
    void Run(const Trace& t, Ctx& c)
    {
        Source src{mdb::Make(static_cast<uint64_t>(t.get("db")), t.get("range") ? mdb::RANGE_MSGS : 0), mdb::Make(static_cast<uint64_t>(t.get("dbx")) + 1000)};
        auto db = Lib([&] { return mdb::Load(*src.own); });
        auto dut = Lib([&] { return std::make_unique<FileParser>(db); });
        dut->SetDecompressRangeCmp(false);
        Pipe ref(db);
        Options op;
        MessageDataStruct ms;
        IntermediateHeader ih;
        CompositeField cf;
        MetaDataStruct md;
        std::shared_ptr<SimStream> cur, next;
        std::vector<std::pair<int64_t, int>> nextEvents; // thousandths of the recording
        size_t fed = 0;                                  // bytes of the recording the reference has been given
        Seq got;                                         // delivered since the reference was last brought up to date
        bool inter = false;                              // reads since then are intermediate ones
        bool settled = true;                             // nothing delivered or supplied since then
        size_t delivered = 0;

        // what the reference delivers for everything supplied so far
        auto bring = [&](bool end) {
            Seq want;
            for (;;)
            {
                size_t n = 0;
                if (cur)
                {
                    const size_t upto = cur->b.supplied();
                    n = std::min(upto - std::min(upto, fed), ref.fr.GetAvailableSpace());
                    if (n) { ref.fr.Write(reinterpret_cast<const unsigned char*>(cur->b.data.data()) + fed, n); }
                    fed += n;
                }
                Res r = ref.next(op, false, inter);
                if (r.st == STATUS::BUFFER_EMPTY && n) { continue; }
                if (r.st == STATUS::BUFFER_EMPTY && end) { r = ref.next(op, true, inter); }
                if (r.st == STATUS::BUFFER_EMPTY) { return want; }
                want.add(r);
            }
        };
        auto compare = [&](bool end, bool partial) {
            const Seq want = bring(end);
            const std::string d = got.differs(want, partial);
            c.check(d.empty(), "C11:delivery", std::string("the file parser ") + d + (partial ? " (reading was stopped half-way)" : ""));
            got.v.clear();
            settled = true;
        };
        // the reference forgets what it holds
        auto forget = [&] { 
            Lib([&] { return ref.fr.Flush(nullptr, 1u << 30); });
            ref.forget();
        };
        auto counts = [&] {
            std::map<CountKey, uint64_t> g;
            for (const auto& k : Lib([&] { return dut->GetMessageCounts(); })) { if (k.second) { g[{static_cast<int>(std::get<0>(k.first)), static_cast<int>(std::get<1>(k.first)), static_cast<int>(std::get<2>(k.first))}] = k.second; } }
            c.check(g == ref.counts, "C11:counts", "the file parser reports " + std::to_string(g.size()) + " kinds of messages, which differ from the " + std::to_string(ref.counts.size()) + " in the recording");
        };
        // one read; false: the stream is reported empty
        auto read = [&] {
            ++c.calls;
            settled = false;
            STATUS st;
            if (inter) { st = Lib([&] { return dut->ReadIntermediate(ms, ih, cf, md); }); }
            else { st = Lib([&] { return dut->Read(ms, md); }); }
            c.ev("read", {static_cast<int64_t>(st), inter});
            if (st == STATUS::STREAM_EMPTY)
            {
                c.check(!cur || cur->b.hit || !cur->good(), "C11:early-end", "the stream is reported empty although it has more to give (" + std::to_string(cur ? cur->b.supplied() : 0) + " of " + std::to_string(cur ? cur->b.data.size() : 0) + " bytes read)");
                return false;
            }
            // (an observation log that cannot be decompressed is reported with the reason)
            c.check(st == STATUS::SUCCESS || st == STATUS::UNKNOWN || st == STATUS::NO_DEFINITION || op.decompress, "C11:status", "the file parser answers " + StName(st));
            got.add(Seen(st, ms, ih, cf, md, inter, c, "C11"));
            if (st == STATUS::SUCCESS) { ++delivered; }
            return true;
        };
        auto drain = [&] {
            while (read()) {}
            compare(true, false);
            c.check(!read(), "C11:after-end", "after the end of the stream was reported another result is delivered");
            counts();
        };
        auto drop = [&](const char* what) { // whatever was read ahead is dropped
            if (!settled) { compare(cur && cur->b.hit, true); }
            c.fault(what);
            forget();
        };
        for (const Op& o : t.ops)
        {
            std::unique_ptr<Made> m;
            const std::string b = src.bytes(o, c, m);
            if (!b.empty() && next) { next->b.data += b; }
            else if (o.k == "opt")
            {
                if (!settled) { drain(); }
                SetOption(o, op, *src.own, nullptr, dut.get());
                c.check(dut->GetReturnUnknownBytes() == op.unknown && dut->GetIgnoreAbbreviatedAsciiResponses() == op.ignoreAbb && dut->GetEncodeFormat() == op.to, "C11:options", "an option does not read back as set");
            }
            else if (o.k == "rec")
            {
                next = std::make_shared<SimStream>();
                nextEvents.clear();
                next->b.seekable = o.at(0) != 0;
                next->b.chunk = std::max<int64_t>(1, o.at(1));
                next->b.bulk = o.at(2) != 0;
                next->b.r = Rng(static_cast<uint64_t>(o.at(3)));
            }
            else if (o.k == "event") { nextEvents.push_back({o.at(0), o.at(1) != 0}); }
            else if (o.k == "set" && next)
            {
                for (auto& e : nextEvents) { next->b.events.push_back({next->b.data.size() * static_cast<size_t>(std::clamp<int64_t>(e.first, 0, 1000)) / 1000, e.second}); }
                next->b.done.assign(next->b.events.size(), false);
                c.simBytes += next->b.data.size();
                if (!settled) { drop("stream_replaced_half_way"); }
                const bool ok = Lib([&] { return dut->SetStream(next); });
                c.check(ok, "C11:set-refused", "a usable stream is refused");
                forget();
                ref.counts.clear();
                counts();
                if (!next->b.seekable) { c.fault("not_seekable"); }
                cur = next;
                next = nullptr;
                fed = 0;
                inter = false;
            }
            else if (o.k == "bad")
            {
                std::shared_ptr<SimStream> s;
                if (o.at(0) != 0)
                {
                    s = std::make_shared<SimStream>();
                    s->b.data = "#BAD";
                    s->setstate(o.at(0) == 1 ? std::ios::eofbit : o.at(0) == 2 ? std::ios::failbit : std::ios::badbit);
                }
                c.fault("unusable_stream_offered");
                const bool ok = Lib([&] { return dut->SetStream(s); });
                c.check(!ok, "C11:bad-accepted", std::string("a stream that ") + (o.at(0) == 0 ? "does not exist" : o.at(0) == 1 ? "is at its end" : o.at(0) == 2 ? "has failed (such as a file that could not be opened)" : "is broken") + " is accepted");
            }
            else if (o.k == "read")
            {
                if ((o.at(1) != 0) != inter)
                {
                    if (!settled) { drain(); }
                    inter = o.at(1) != 0;
                }
                for (int64_t i = 0; i < std::min<int64_t>(o.at(0), 64); ++i)
                {
                    if (!read())
                    {
                        compare(true, false);
                        counts();
                    }
                }
            }
            else if (o.k == "drain") { drain(); }
            else if (o.k == "clear" && cur)
            {
                // the stream may have more now
                if (!settled) { drain(); }
                if (cur->eof() || cur->bad()) { c.fault(cur->bad() ? "read_error_cleared" : "stall_over"); }
                cur->clear();
                cur->b.hit = false;
            }
            else if (o.k == "flush")
            {
                if (!settled) { drain(); }
                const size_t n = static_cast<size_t>(std::clamp<int64_t>(o.at(0), 0, 300000));
                sim::GuardedBuf a(n, 0xEE), b2(n, 0xEE);
                const bool none = o.at(1) != 0;
                const uint32_t x = Lib([&] { return dut->Flush(none ? nullptr : a.data(), static_cast<uint32_t>(n)); });
                const uint32_t y = Lib([&] { return ref.fr.Flush(none ? nullptr : b2.data(), static_cast<uint32_t>(n)); });
                ref.forget();
                c.fault("flush");
                c.check(x == y && std::memcmp(a.data(), b2.data(), n) == 0, "C11:flush", "Flush returns " + std::to_string(x) + " bytes instead of " + std::to_string(y));
            }
            else if (o.k == "reset")
            {
                if (!settled) { drop("reset_half_way"); }
                else { forget(); }
                const bool ok = Lib([&] { return dut->Reset(); });
                ref.counts.clear();
                counts();
                if (!cur) { continue; }
                if (cur->b.seekable)
                {
                    c.check(ok, "C11:reset", "Reset reports failure for a stream that can be rewound");
                    c.check(cur->b.supplied() == 0 && cur->good(), "C11:reset", "Reset leaves the stream at byte " + std::to_string(cur->b.supplied()));
                    fed = 0;
                    c.probe("reread");
                }
                else
                {
                    c.check(!ok, "C11:reset", "Reset reports success for a stream that cannot be rewound");
                    fed = cur->b.supplied();
                    cur->clear();
                    cur->b.hit = false;
                }
            }
        }
        if (!settled) { drain(); }
        sim::GuardedBuf a(300000, 0xEE), b2(300000, 0xEE);
        const uint32_t x = Lib([&] { return dut->Flush(a.data(), 300000); });
        const uint32_t y = Lib([&] { return ref.fr.Flush(b2.data(), 300000); });
        c.check(x == y && std::memcmp(a.data(), b2.data(), 300000) == 0, "C11:flush", "the bytes left at the end differ");
        if (cur && cur->b.stalls) { c.fault("stall", cur->b.stalls); }
        if (cur && cur->b.errors) { c.fault("read_error", cur->b.errors); }
        if (ref.cut) { c.probe("incomplete_abbreviated", ref.cut); }
        if (ref.oversize) { c.probe("over_32k", ref.oversize); }
        if (ref.undefined) { c.probe("no_definition", ref.undefined); }
        c.nontrivial = delivered;
    }
};
SIM_SCENARIO("C11", FileWorld)
} // namespace
