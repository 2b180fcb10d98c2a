// C24 and the receiver-configuration part of C19: logs that carry a whole command message as their contents.
#include "traffic.hpp"

#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"

#include <map>
#include <set>

namespace {
using namespace cd;
using novatel::edie::oem::RxConfigHandler;
using sim::Ctx;
using sim::Lib;
using sim::Op;
using sim::Rng;
using sim::Trace;

const int kWire[] = {mdb::F_BIN, mdb::F_ASC, mdb::F_ABB};
const int kTo[] = {mdb::F_BIN, mdb::F_ASC, mdb::F_ABB, mdb::F_JSON};
int Mod(int64_t v, int n) { return static_cast<int>(((v % n) + n) % n); }
std::string Cut(const std::string& s) { return sim::Printable(s, 500); }

enum RxKind
{
    RX_GOOD,
    RX_CONTENT, // embedded message changed, checksums made right again
    RX_INNERCRC, // embedded checksum wrong
    RX_OTHER,   // something else embedded: too short, a response, another format, another such log
    RX_REPLY,   // a response to the log
    RX_DAMAGED, // damaged on the line
    RX_N
};
struct Parts
{
    std::string frame;
    size_t outerHdr = 0, emb = 0, embHdr = 0, embLen = 0; // where the pieces are
};
// the embedded message as it appears inside: its own checksum inverted, no line end (ASCII); an indented header (abbreviated)
std::string InnerOf(const std::string& frame, int form, bool goodCrc = true)
{
    const uint32_t flip = goodCrc ? 0xFFFFFFFFu : 0x0F0F0F0Fu;
    switch (form)
    {
    case mdb::F_BIN: {
        if (frame.size() < 4) { return frame; }
        const std::string body = frame.substr(0, frame.size() - 4);
        return body + wire::Le<uint32_t>(wire::Crc32(body) ^ flip);
    }
    case mdb::F_ASC: {
        const size_t star = frame.rfind('*');
        if (star == std::string::npos || star < 1) { return frame; }
        return frame.substr(0, star + 1) + wire::HexCrc(wire::Crc32(frame.substr(1, star - 1)) ^ flip);
    }
    default: {
        const size_t nl = frame.find("\r\n");
        if (nl == std::string::npos) { return frame; }
        return "<     " + frame.substr(1, nl - 1) + " \r\n" + frame.substr(nl + 2);
    }
    }
}
std::string Outer(const mdb::Db& db, const mdb::Msg& m, const mdb::Hdr& h, const std::string& inner, int form)
{
    switch (form)
    {
    case mdb::F_BIN: return wire::Binary(inner, h.id, h.week, h.ms, h.type, h.port, h.seq, h.idle, h.tstat, h.rxstat, h.crc, h.swver);
    case mdb::F_ASC: return wire::Ascii(mdb::HdrText(db, m, h, mdb::F_ASC) + inner);
    default: return mdb::HdrText(db, m, h, mdb::F_ABB) + inner;
    }
}
struct Rx
{
    const mdb::Msg* m = nullptr;
    mdb::Hdr h;
    Made emb;
    int form = 0;
    int kind = 0;
    std::string frame;
    bool good() const { return kind == RX_GOOD; }
};
// the complete log in one of the formats, with the position of its parts ("" if it has none)
Parts Whole(const mdb::Db& db, const Rx& x, int form)
{
    Parts p;
    if (form == mdb::F_JSON)
    {
        const std::string oh = mdb::HdrJson(db, *x.m, x.h, false), eh = mdb::HdrJson(db, *x.emb.m, x.emb.h, false);
        const std::string e = mdb::Message(db, *x.emb.m, *x.emb.f, x.emb.h, x.emb.row, mdb::F_JSON);
        p.frame = "{\"header\": " + oh + ",\"body\": " + e + "}";
        p.outerHdr = oh.size();
        p.emb = p.frame.size() - 1 - e.size();
        p.embHdr = eh.size();
        p.embLen = e.size();
        return p;
    }
    const std::string e = Expected(db, x.emb, form);
    if (e.empty()) { return p; }
    const std::string inner = InnerOf(e, form);
    p.frame = Outer(db, *x.m, x.h, inner, form);
    p.outerHdr = form == mdb::F_BIN ? 28 : mdb::HdrText(db, *x.m, x.h, form).size() + (form == mdb::F_ASC ? 1 : 0);
    p.emb = p.outerHdr;
    p.embLen = inner.size();
    p.embHdr = form == mdb::F_BIN ? 28 : form == mdb::F_ASC ? inner.find(';') + 1 : inner.find("\r\n") + 2;
    return p;
}
const int kNums = 11; // numbers of an "rx" operation: embedded message (6), log, form, kind, seeds (2)
std::vector<int64_t> RandomRx(Rng& r, int form, bool allGood)
{
    auto a = RandomNums(r, form, {6, 1, 0, 0, 0});
    a.push_back(static_cast<int64_t>(r.below(2)));
    a.push_back(form);
    a.push_back(allGood || r.chance(2, 3) ? RX_GOOD : static_cast<int64_t>(1 + r.below(RX_N - 1)));
    a.push_back(static_cast<int64_t>(r.below(1u << 30)));
    a.push_back(static_cast<int64_t>(r.below(1u << 30)));
    return a;
}
// numbers that choose an ordinary message
Op Ordinary(const mdb::Db& db, const Op& o)
{
    Op x = o;
    x.a[0] = Mod(x.at(0), static_cast<int>(db.msgs.size() - 2));
    return x;
}
Rx MakeRx(const mdb::Db& db, const Op& o)
{
    Rx x;
    x.m = &db.msgs[db.msgs.size() - 2 + static_cast<size_t>(Mod(o.at(6), 2))];
    x.form = kWire[0];
    for (int f : kWire)
    {
        if (f == o.at(7)) { x.form = f; }
    }
    Op e = Ordinary(db, o);
    e.a[3] = x.form;
    if (e.at(4) != K_BIG) { e.a[4] = K_VALID; }
    x.emb = MakeMsg(db, e);
    x.kind = Mod(o.at(8), RX_N);
    Rng r(static_cast<uint64_t>(o.at(9)) + 91), k(static_cast<uint64_t>(o.at(10)) + 17);
    x.h = mdb::RandomHdr(db, *x.m, r);
    x.h.crc = static_cast<uint16_t>(x.m->latestCrc());
    std::string inner = InnerOf(x.emb.frame, x.form);
    switch (x.kind)
    {
    case RX_CONTENT: {
        const std::string hurt = Hostile(x.emb.frame, x.form, k, static_cast<int>(k.range(1, 3)));
        inner = InnerOf(k.chance(1, 2) ? Reseal(hurt, x.form) : hurt, x.form);
        break;
    }
    case RX_INNERCRC: inner = InnerOf(x.emb.frame, x.form, false); break;
    case RX_OTHER: {
        switch (k.below(6))
        {
        case 0: inner = wire::RandomText(k, k.below(30), false); break;
        case 1: inner = wire::RandomBytes(k, k.below(40)); break;
        case 2: inner = inner.substr(0, k.below(inner.size() + 1)); break;
        case 3: inner = Outer(db, *x.m, x.h, inner, x.form); break;
        case 4: {
            Op e2 = e;
            e2.a[3] = k.pick({0, 1, 2, 3, 4, 5, 6});
            inner = MakeMsg(db, e2).frame;
            break;
        }
        default: inner = k.pick<std::string>({"OK", "<OK", "<ERROR:Invalid", "#OK", "", "*", "#", "<", "<     ", "\r\n", "{}", "$GPGGA,1,2*00"}); break;
        }
        if (x.form != mdb::F_BIN)
        {
            if (x.form == mdb::F_ABB) { inner = "<     " + inner + "\r\n"; }
            for (size_t i = 1; i < inner.size(); ++i)
            {
                if (x.form == mdb::F_ASC && (inner[i] == '\r' || inner[i] == '\n')) { inner[i] = 'x'; }
            }
        }
        break;
    }
    case RX_REPLY:
        x.h.type |= 0x80;
        inner = x.form == mdb::F_BIN ? wire::Le<uint32_t>(static_cast<uint32_t>(k.below(6))) + k.pick<std::string>({"OK", "", "Invalid"}) : k.pick<std::string>({"OK", "ERROR:Invalid Message", "", "ERROR:Requested log does not exist"});
        break;
    default: break;
    }
    x.frame = Outer(db, *x.m, x.h, inner, x.form);
    if (x.kind == RX_DAMAGED)
    {
        x.frame = Hostile(x.frame, x.form, k, 1);
        if (k.chance(1, 3)) { x.frame.resize(k.below(x.frame.size()) + 1); }
    }
    return x;
}
// Does a delivered log carry correct checksums, inside and outside?
std::string SealsOf(const std::string& s, int form)
{
    if (form == mdb::F_BIN)
    {
        if (s.size() < 28 + 12 + 8 || (s[30] != '\x13' && s.size() < 28 + 28 + 8)) { return "it is too short"; }
        const std::string in = s.substr(28, s.size() - 28 - 8);
        if (wire::Le<uint32_t>(wire::Crc32(in) ^ 0xFFFFFFFFu) != s.substr(s.size() - 8, 4)) { return "the embedded checksum is wrong"; }
        if (wire::Le<uint32_t>(wire::Crc32(s.substr(0, s.size() - 4))) != s.substr(s.size() - 4)) { return "the checksum is wrong"; }
        const size_t n = static_cast<unsigned char>(s[8]) + 256u * static_cast<unsigned char>(s[9]);
        const size_t ni = s.size() < 38 ? 0 : static_cast<unsigned char>(s[36]) + 256u * static_cast<unsigned char>(s[37]);
        if (static_cast<unsigned char>(s[3]) != 28 || n + 32 != s.size()) { return "the length is wrong"; }
        if (static_cast<unsigned char>(s[30]) == 0x13)
        {
            if (static_cast<unsigned char>(s[31]) + 12u != in.size()) { return "the embedded length is wrong"; }
        }
        else if (static_cast<unsigned char>(s[31]) != 28 || ni + 28 != in.size()) { return "the embedded length is wrong"; }
        return "";
    }
    if (form == mdb::F_ASC)
    {
        const size_t o = s.rfind('*');
        if (o == std::string::npos || o < 10 || s.size() != o + 11 || s.substr(o + 9) != "\r\n") { return "it does not end like a message"; }
        if (wire::HexCrc(wire::Crc32(s.substr(1, o - 1))) != s.substr(o + 1, 8)) { return "the checksum is wrong"; }
        const size_t i = s.rfind('*', o - 1);
        const size_t b = s.find(';');
        if (i == std::string::npos || b == std::string::npos || b + 1 >= i || o != i + 9 || (s[b + 1] != '#' && s[b + 1] != '%')) { return "it does not contain a message"; }
        if (wire::HexCrc(wire::Crc32(s.substr(b + 2, i - b - 2)) ^ 0xFFFFFFFFu) != s.substr(i + 1, 8)) { return "the embedded checksum is wrong"; }
    }
    return "";
}
std::string StName(int st) { return std::string(novatel::edie::StatusToString(static_cast<STATUS>(st))); }

// ------------------------------------------------------------------ C24
struct RxConfig : sim::Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        t.cfg["to"] = static_cast<int64_t>(r.below(4));
        t.cfg["handler"] = r.chance(1, 2);
        t.cfg["unknown"] = r.chance(1, 3);
        t.cfg["direct"] = r.chance(1, 3);
        t.cfg["nodef"] = r.chance(1, 16);
        t.cfg["lseed"] = static_cast<int64_t>(r.below(1u << 30));
        t.cfg["piece"] = r.pick<int64_t>({1, 3, 20, 100, 1000, 40000});
        t.cfg["poll"] = static_cast<int64_t>(r.below(3));
        t.cfg["fill"] = r.pick<int64_t>({0x00, 0xFF, 0x41, 0x31, 0x2C, 0x2A});
        const int n = static_cast<int>(r.range(1, thorough ? 14 : 7));
        const int same = r.chance(1, 3) ? kWire[r.below(3)] : -1;
        const bool allGood = r.chance(1, 3);
        for (int i = 0; i < n; ++i)
        {
            const int form = same >= 0 ? same : kWire[r.below(3)];
            switch (r.below(8))
            {
            case 0:
            case 1: t.add("m", RandomNums(r, kWire[r.below(3)], {5, 1, 1, 1, allGood ? 0u : 1u})); break;
            case 2: t.add("noise", {static_cast<int64_t>(r.below(60)), static_cast<int64_t>(r.below(1u << 30))}); break;
            case 3: t.add("flush", {}); break;
            default: t.add("rx", RandomRx(r, form, allGood)); break;
            }
        }
    }
    struct Want
    {
        bool must = false;
        std::string out, what;
        Parts parts;
        const Rx* rx = nullptr;
    };
    void run(const Trace& t, Ctx& c) override
    {
        const bool nodef = t.get("nodef") != 0;
        auto model = mdb::Make(static_cast<uint64_t>(t.get("db")), mdb::RXCONFIG_MSG);
        mdb::Db without = *model;
        without.msgs.resize(without.msgs.size() - 2);
        auto db = Lib([&] { return mdb::Load(nodef ? without : *model); });
        const int to = kTo[Mod(t.get("to"), 4)];
        const bool viaHandler = t.get("handler") != 0;
        sim::g_fill = static_cast<int>(t.get("fill") & 255);
        Rng lr(static_cast<uint64_t>(t.get("lseed")) + 5);
        const size_t maxPiece = static_cast<size_t>(std::max<int64_t>(1, t.get("piece")));

        std::unique_ptr<ParserFeed> pf;
        std::unique_ptr<RxConfigHandler> handler;
        if (viaHandler) { handler = Lib([&] { return std::make_unique<RxConfigHandler>(db); }); }
        else
        {
            pf = std::make_unique<ParserFeed>(db, FormatOf(to));
            pf->p.SetReturnUnknownBytes(t.get("unknown") != 0);
        }
        MessageDataStruct ms, ems;
        MetaDataStruct md, emd;

        std::vector<std::string> segments(1);
        std::vector<Rx> logs;
        std::vector<std::pair<Made, bool>> others;
        for (const Op& o : t.ops)
        {
            if (o.k == "rx" && o.a.size() >= kNums) { logs.push_back(MakeRx(*model, o)); }
            else if (o.k == "m" && o.a.size() >= 6)
            {
                Op x = Ordinary(*model, o);
                if (x.at(3) != mdb::F_BIN && x.at(3) != mdb::F_ASC) { x.a[3] = mdb::F_ABB; }
                others.emplace_back(MakeMsg(nodef ? without : *model, x), x.at(4) < K_HOSTILE);
            }
        }
        // What a log carries is a message of its own: with an ordinary checksum, and decodable like any other.
        if (t.get("direct") != 0 && !nodef)
        {
            auto direct = Lib([&] { return std::make_unique<RxConfigHandler>(db); });
            auto hd = Lib([&] { return std::make_unique<novatel::edie::oem::HeaderDecoder>(db); });
            for (const Rx& x : logs)
            {
                Framed f;
                if (!x.good() || x.frame.size() > 32000 || !FrameIt(x.frame, x.form, f)) { continue; }
                MetaDataStruct dmd = f.md;
                IntermediateHeader ih;
                CompositeField cf;
                sim::GuardedBuf in(f.bytes.size());
                std::memcpy(in.data(), f.bytes.data(), f.bytes.size());
                const STATUS h = Lib([&] { return hd->Decode(in.data(), ih, dmd); });
                const STATUS d = h == STATUS::SUCCESS ? Lib([&] { return direct->Decode(in.data() + dmd.uiHeaderLength, cf, dmd); }) : h;
                ++c.calls;
                std::string have, want = x.emb.frame;
                if (x.form == mdb::F_ABB)
                {
                    const size_t nl = want.find("\r\n");
                    want = want.substr(0, nl) + " " + want.substr(nl);
                }
                if (d == STATUS::SUCCESS && cf.GetFieldInfo() != nullptr && !cf.GetFieldInfo()->messageOrderedFields.empty())
                {
                    const auto bytes = cf.GetFieldValue<std::vector<uint8_t>>(*cf.GetFieldInfo()->messageOrderedFields[0]);
                    have.assign(bytes.begin(), bytes.end());
                }
                c.check(have == want, "C24:embedded", "decoding the log '" + Cut(x.frame) + "' gives status " + StName(static_cast<int>(d)) + " and the embedded message '" + Cut(have) + "' instead of '" + Cut(want) + "'");
                c.probe("embedded_message_compared");
            }
        }
        std::map<std::string, Want> known;
        size_t li = 0, oi = 0;
        for (const Op& o : t.ops)
        {
            std::string& stream = segments.back();
            if (o.k == "rx" && o.a.size() >= kNums)
            {
                const Rx& x = logs[li++];
                if (x.frame.size() > 32000) { continue; }
                stream += x.frame;
                if (x.form == mdb::F_ABB) { stream += "[COM1]"; }
                if (!x.good())
                {
                    static const char* const names[] = {"", "embedded_contents_damaged", "embedded_checksum_wrong", "embedded_replaced", "response_to_log", "line_damage"};
                    c.fault(names[x.kind]);
                    continue;
                }
                Want w;
                w.parts = Whole(*model, x, to);
                w.out = w.parts.frame;
                w.rx = &x;
                w.must = !nodef && !w.out.empty() && w.out.size() + 64 <= 0x8000;
                w.what = std::string(mdb::FormName(x.form)) + " log '" + Cut(x.frame) + "'";
                known[x.frame] = w;
            }
            else if (o.k == "m" && o.a.size() >= 6)
            {
                const auto& m = others[oi++];
                if (m.first.frame.size() > 32000) { continue; }
                stream += m.first.frame;
                if (m.first.form == mdb::F_ABB) { stream += "[COM1]"; }
                if (!m.second || viaHandler) { continue; }
                Want w;
                w.out = Expected(nodef ? without : *model, m.first, to);
                w.must = !m.first.response && !w.out.empty() && w.out.size() + 64 <= 0x8000;
                w.what = std::string(mdb::FormName(m.first.form)) + " message '" + Cut(m.first.frame) + "'";
                known[m.first.frame] = w;
            }
            else if (o.k == "noise")
            {
                Rng k(static_cast<uint64_t>(o.at(1)) + 3);
                stream += wire::RandomBytes(k, static_cast<size_t>(Mod(o.at(0), 64)));
                c.fault("line_noise");
            }
            else if (o.k == "flush") { segments.emplace_back(); }
        }
        struct Got
        {
            std::string bytes, hdr, body, emb, embHdr, embBody;
            size_t id = 0, embId = 0, hdrAt = 0, embAt = 0, embHdrAt = 0, embBodyAt = 0, bodyAt = 0;
        };
        uint64_t delivered = 0;
        for (size_t si = 0; si < segments.size(); ++si)
        {
            const std::string& stream = segments[si];
            c.simBytes += stream.size();
            std::vector<Got> got;
            auto takeParser = [&](std::vector<ParserFeed::Item>& out) {
                for (auto& i : out)
                {
                    c.ev("parser", {i.st}, i.bytes);
                    if (i.st != static_cast<int>(STATUS::SUCCESS)) { continue; }
                    Got g;
                    g.bytes = i.bytes;
                    g.id = i.md.usMessageId;
                    got.push_back(g);
                }
                out.clear();
            };
            auto convertAll = [&] {
                for (int guard = 0; guard < 100000; ++guard)
                {
                    STATUS st;
                    try
                    {
                        st = Lib([&] { return handler->Convert(ms, md, ems, emd, FormatOf(to)); });
                    }
                    catch (const std::exception& e)
                    {
                        c.fail("C24:throws", std::string("Convert ends in the exception ") + e.what());
                        return;
                    }
                    ++c.calls;
                    if (st == STATUS::BUFFER_EMPTY) { return; }
                    c.ev("convert", {static_cast<int64_t>(st)}, st == STATUS::SUCCESS ? std::string(reinterpret_cast<char*>(ms.pucMessage), ms.uiMessageLength) : "");
                    if (st != STATUS::SUCCESS) { continue; }
                    Got g;
                    const unsigned char* base = ms.pucMessage;
                    g.bytes.assign(reinterpret_cast<const char*>(base), ms.uiMessageLength);
                    auto part = [&](const unsigned char* p, uint32_t n, std::string& s, size_t& at, const char* name) {
                        if (p < base || p > base + ms.uiMessageLength || n > static_cast<size_t>(base + ms.uiMessageLength - p))
                        {
                            c.fail("C24:parts", std::string("the reported ") + name + " does not lie inside the converted log '" + Cut(g.bytes) + "'");
                        }
                        else
                        {
                            s.assign(reinterpret_cast<const char*>(p), n);
                            at = static_cast<size_t>(p - base);
                        }
                    };
                    part(ms.pucMessageHeader, ms.uiMessageHeaderLength, g.hdr, g.hdrAt, "header");
                    part(ms.pucMessageBody, ms.uiMessageBodyLength, g.body, g.bodyAt, "body");
                    part(ems.pucMessage, ems.uiMessageLength, g.emb, g.embAt, "embedded message");
                    part(ems.pucMessageHeader, ems.uiMessageHeaderLength, g.embHdr, g.embHdrAt, "embedded header");
                    part(ems.pucMessageBody, ems.uiMessageBodyLength, g.embBody, g.embBodyAt, "embedded body");
                    g.id = md.usMessageId;
                    g.embId = emd.usMessageId;
                    got.push_back(g);
                }
                c.fail("C24:progress", "Convert does not come to an end");
            };
            std::vector<ParserFeed::Item> out;
            for (size_t off = 0; off < stream.size();)
            {
                const size_t n = std::min(stream.size() - off, static_cast<size_t>(lr.range(1, static_cast<int64_t>(maxPiece))));
                const std::string piece = stream.substr(off, n);
                off += n;
                const bool poll = t.get("poll") == 0 || lr.chance(1, 3) || off == stream.size();
                if (viaHandler)
                {
                    for (size_t o = 0; o < piece.size();)
                    {
                        const size_t k = Lib([&] { return handler->Write(reinterpret_cast<const unsigned char*>(piece.data()) + o, static_cast<uint32_t>(piece.size() - o)); });
                        if (k == 0)
                        {
                            const size_t before = c.calls;
                            convertAll();
                            if (c.calls - before > 1) { continue; }
                            break;
                        }
                        o += k;
                    }
                    if (poll) { convertAll(); }
                }
                else
                {
                    try
                    {
                        pf->feed(piece, out, c);
                        while (poll && pf->drain(out)) { ++c.calls; }
                    }
                    catch (const std::exception& e)
                    {
                        c.fail("C24:throws", std::string("Read ends in the exception ") + e.what());
                    }
                    takeParser(out);
                }
            }
            // what had to come out
            wire::Grammar g;
            const wire::Parsed p = wire::Model(stream, g);
            std::set<size_t> at = {0};
            size_t lastMust = 0;
            for (const auto& f : p.frames)
            {
                const std::string bytes = stream.substr(f.pos, f.len);
                auto it = known.find(bytes);
                std::set<size_t> next;
                if (it != known.end() && it->second.must)
                {
                    const Want& w = it->second;
                    for (size_t a : at)
                    {
                        if (a < got.size() && got[a].bytes == w.out) { next.insert(a + 1); }
                    }
                    if (next.empty())
                    {
                        const std::string have = *at.begin() < got.size() ? got[*at.begin()].bytes : "";
                        size_t k = 0;
                        while (k < have.size() && k < w.out.size() && have[k] == w.out[k]) { ++k; }
                        c.fail(w.rx ? "C24:converted" : "C24:neighbour", std::string("no ") + mdb::FormName(to) + " output '" + Cut(w.out) + "' for the " + w.what + (have.empty() ? std::string("; nothing comes out") : "; what comes out differs at byte " + std::to_string(k) + ": '" + Cut(have.substr(k > 20 ? k - 20 : 0, 90)) + "' and not '" + Cut(w.out.substr(k > 20 ? k - 20 : 0, 90)) + "'"));
                    }
                    lastMust = *next.rbegin();
                    if (w.rx)
                    {
                        ++delivered;
                        c.probe((std::string(mdb::FormName(w.rx->form)) + ">" + mdb::FormName(to)).c_str());
                    }
                }
                else
                {
                    next = at;
                    const bool refused = it != known.end() && nodef && it->second.rx != nullptr;
                    for (size_t a : at)
                    {
                        if (!refused) { next.insert(a + 1); }
                    }
                }
                at = next;
            }
            (void)lastMust;
            c.check(at.count(got.size()) != 0, "C24:extra", std::to_string(got.size()) + " messages come out, that is more than went in; last: '" + Cut(got.empty() ? "" : got.back().bytes) + "'");
            for (auto& x : got)
            {
                const Want* w = nullptr;
                for (auto& k : known)
                {
                    if (k.second.rx && k.second.out == x.bytes) { w = &k.second; }
                }
                if (w)
                {
                    c.check(x.id == w->rx->h.id, "C24:metadata", "message id " + std::to_string(x.id) + " is reported for the " + w->what);
                    if (!viaHandler) { continue; }
                    c.check(x.embId == w->rx->emb.h.id, "C24:metadata", "embedded message id " + std::to_string(x.embId) + " is reported for the " + w->what);
                    const Parts& q = w->parts;
                    const bool js = to == mdb::F_JSON;
                    c.check(x.hdrAt == (js ? 11u : 0u) && x.hdr.size() == q.outerHdr && x.bodyAt == q.emb && x.body.size() == x.bytes.size() - q.emb - (js ? 1 : 0), "C24:parts",
                            "header '" + Cut(x.hdr) + "' and body '" + Cut(x.body) + "' are reported for '" + Cut(x.bytes) + "'");
                    c.check(x.embAt == q.emb && x.emb.size() == q.embLen && x.embHdrAt == q.emb + (js ? 11u : 0u) && x.embHdr.size() == q.embHdr &&
                                (js ? x.embBodyAt + x.embBody.size() + 1 == q.emb + q.embLen : x.embBodyAt == q.emb + q.embHdr && x.embBody.size() == q.embLen - q.embHdr),
                            "C24:parts", "embedded message '" + Cut(x.emb) + "', header '" + Cut(x.embHdr) + "' and body '" + Cut(x.embBody) + "' are reported for '" + Cut(x.bytes) + "'");
                    continue;
                }
                if (x.id == 128 || x.id == 2474)
                {
                    const std::string bad = SealsOf(x.bytes, to);
                    c.check(bad.empty(), "C24:seal", "a log with damaged contents is passed on as '" + Cut(x.bytes) + "', " + bad);
                    c.probe("damaged_log_passed_on");
                }
            }
            if (si + 1 < segments.size())
            {
                c.fault("flush");
                if (viaHandler) { Lib([&] { return handler->Flush(); }); }
                else { Lib([&] { return pf->p.Flush(); }); }
            }
        }
        sim::g_fill = -1;
        c.nontrivial = delivered;
    }
};
SIM_SCENARIO("C24", RxConfig)

// ------------------------------------------------------------------ C19: the handler's own encoding
struct RxBuffer : sim::Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        const int n = static_cast<int>(r.range(1, thorough ? 4 : 2));
        for (int i = 0; i < n; ++i)
        {
            auto a = RandomRx(r, kWire[r.below(3)], r.chance(3, 4));
            a.push_back(static_cast<int64_t>(r.below(4)));
            a.push_back(static_cast<int64_t>(r.below(1u << 30)));
            t.add("rx", a);
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        auto model = mdb::Make(static_cast<uint64_t>(t.get("db")), mdb::RXCONFIG_MSG);
        auto db = Lib([&] { return mdb::Load(*model); });
        auto handler = Lib([&] { return std::make_unique<RxConfigHandler>(db); });
        auto hd = Lib([&] { return std::make_unique<novatel::edie::oem::HeaderDecoder>(db); });
        uint64_t sizes = 0;
        for (const Op& o : t.ops)
        {
            if (o.k != "rx" || o.a.size() < kNums) { continue; }
            const Rx x = MakeRx(*model, o);
            const int to = kTo[Mod(o.at(11), 4)];
            Framed f;
            if (!FrameIt(x.frame, x.form, f)) { continue; }
            MetaDataStruct md = f.md;
            IntermediateHeader ih;
            CompositeField cf;
            sim::GuardedBuf in(f.bytes.size());
            std::memcpy(in.data(), f.bytes.data(), f.bytes.size());
            try
            {
                if (Lib([&] { return hd->Decode(in.data(), ih, md); }) != STATUS::SUCCESS) { continue; }
                if (Lib([&] { return handler->Decode(in.data() + md.uiHeaderLength, cf, md); }) != STATUS::SUCCESS) { continue; }
            }
            catch (const std::exception& e)
            {
                c.fail("C19:throws", std::string("decoding '") + Cut(f.bytes) + "' ends in " + e.what());
                continue;
            }
            auto enc = [&](size_t size, std::string& bytes, const std::string& what) {
                sim::GuardedBuf out(size, 0xEE);
                unsigned char* q = out.data();
                MessageDataStruct ms;
                int st = -1;
                try
                {
                    st = static_cast<int>(Lib([&] { return handler->Encode(&q, static_cast<uint32_t>(size), ih, cf, ms, FormatOf(to)); }));
                }
                catch (const std::exception& e)
                {
                    c.fail("C19:throws", what + "encoding ends in " + e.what());
                    return st;
                }
                ++c.calls;
                if (st == 0)
                {
                    if (q != out.data() || ms.pucMessage != out.data() || ms.uiMessageLength > size || ms.pucMessageHeader < out.data() || ms.pucMessageBody < out.data() ||
                        ms.pucMessageHeader + ms.uiMessageHeaderLength > out.data() + ms.uiMessageLength || ms.pucMessageBody + ms.uiMessageBodyLength > out.data() + ms.uiMessageLength)
                    {
                        c.fail("C19:parts", what + "the reported message, header or body does not lie inside the output buffer");
                        return -1;
                    }
                    bytes.assign(reinterpret_cast<char*>(out.data()), ms.uiMessageLength);
                }
                return st;
            };
            const std::string head = std::string(mdb::FormName(x.form)) + " log '" + Cut(f.bytes) + "' to " + mdb::FormName(to) + ": ";
            std::string full;
            const int fs = enc(400000, full, head);
            c.ev("full", {x.form, to, fs}, full);
            if (x.good() && f.bytes == x.frame)
            {
                const std::string want = Whole(*model, x, to).frame;
                c.check(want.empty() || (fs == 0 && full == want), "C19:complete", head + "a large buffer gets " + StName(fs) + " '" + Cut(full) + "' instead of '" + Cut(want) + "'");
            }
            if (fs != 0)
            {
                c.check(fs != static_cast<int>(STATUS::BUFFER_FULL), "C19:always-full", head + "a 400000-byte buffer is reported full");
                continue;
            }
            const size_t n = full.size();
            std::vector<size_t> sz = {0, 1, n / 2, n > 8 ? n - 8 : 0, n + 1, n + 2, n + 3, n + 4, n + 17, n + 64};
            for (size_t k = 0; k <= 12; ++k) { sz.push_back(n >= k ? n - k : 0); }
            Rng r(static_cast<uint64_t>(o.at(12)) + 3);
            for (int k = 0; k < 40; ++k) { sz.push_back(r.below(n + 40)); }
            if (n < 400)
            {
                for (size_t k = 0; k < n + 8; ++k) { sz.push_back(k); }
            }
            size_t okAt = SIZE_MAX, failAt = 0;
            for (size_t s : sz)
            {
                const std::string what = head + "into " + std::to_string(s) + " of the " + std::to_string(n) + " bytes needed: ";
                std::string bytes;
                const int st = enc(s, bytes, what);
                ++sizes;
                if (st == 0)
                {
                    c.check(bytes == full, "C19:truncated", what + "success, but the output is '" + Cut(bytes) + "' instead of '" + Cut(full) + "'");
                    okAt = std::min(okAt, s);
                }
                else
                {
                    c.check(st == static_cast<int>(STATUS::BUFFER_FULL), "C19:status", what + "answers " + StName(st));
                    c.fault("output_buffer_too_small");
                    failAt = std::max(failAt, s);
                }
            }
            c.check(failAt < okAt, "C19:monotonic", head + "a buffer of " + std::to_string(okAt) + " bytes suffices, one of " + std::to_string(failAt) + " bytes does not");
            c.check(failAt <= n + 16, "C19:wasteful", head + std::to_string(n) + " bytes do not fit into " + std::to_string(failAt));
        }
        c.nontrivial = sizes;
    }
};
SIM_SCENARIO("C19-rxconfig", RxBuffer)
} // namespace
std::string cd::RxFrame(const mdb::Db& db, int form, uint64_t seed)
{
    Rng r(seed * 3 + 1);
    Op o;
    o.k = "rx";
    o.a = RandomRx(r, form, r.chance(2, 3));
    return MakeRx(db, o).frame;
}
