// C21: a chain of converting nodes connected by simulated links. Every message each hop sends must be exactly the
// well-formed message of the hop's format carrying the original header and values.
#include "codec.hpp"

namespace {
using namespace cd;
using sim::Ctx;
using sim::Op;
using sim::Lib;
using sim::Rng;
using sim::Trace;

const int kLong[] = {mdb::F_BIN, mdb::F_ASC, mdb::F_ABB, mdb::F_JSON};
const int kShort[] = {mdb::F_SBIN, mdb::F_SASC, mdb::F_SABB};

struct Relay : sim::Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        const bool shortChain = r.chance(1, 3);
        const int hops = static_cast<int>(r.range(1, thorough ? 6 : 4));
        t.cfg["src"] = shortChain ? kShort[r.below(3)] : kLong[r.below(4)];
        int prev = static_cast<int>(t.cfg["src"]);
        const bool rawChain = !shortChain && (prev == mdb::F_BIN || prev == mdb::F_JSON) && r.chance(1, 3);
        for (int h = 0; h < hops; ++h)
        {
            int f = shortChain ? kShort[r.below(3)] : kLong[r.below(4)];
            if (f == prev && r.chance(3, 4)) { f = shortChain ? kShort[r.below(3)] : kLong[r.below(4)]; }
            if (rawChain) { f = r.chance(1, 2) ? mdb::F_BIN : mdb::F_JSON; }
            if (h == hops - 1 && r.chance(1, 6) && !shortChain) { f = mdb::F_FLAT; }
            // hop: target form, node kind (0 components, 1 parser), link seed, longest piece, quiet polls
            t.add("hop", {f, r.chance(1, 3), static_cast<int64_t>(r.below(1 << 30)), r.pick<int64_t>({1, 3, 17, 64, 300, 5000}), r.chance(1, 2)});
            prev = f;
        }
        const int n = static_cast<int>(r.range(1, thorough ? 12 : 6));
        for (int i = 0; i < n; ++i) { t.add("msg", {static_cast<int64_t>(r.below(10)), static_cast<int64_t>(r.below(2)), static_cast<int64_t>(r.below(1u << 30)), r.chance(1, 5)}); }
        const int nf = static_cast<int>(r.below(5));
        for (int i = 0; i < nf; ++i)
        {
            const char* k = r.pick({"drop", "dup", "noise"});
            t.add(k, {static_cast<int64_t>(r.below(static_cast<uint64_t>(hops))), static_cast<int64_t>(r.below(static_cast<uint64_t>(n))), static_cast<int64_t>(r.below(1000))});
        }
    }
    struct Item
    {
        const mdb::Msg* m;
        const mdb::Flds* f;
        mdb::Hdr h;
        mdb::Row row;
    };
    static std::string Sent(const mdb::Db& db, const Item& i, int form) { return mdb::Message(db, *i.m, *i.f, i.h, i.row, form); }
    void run(const Trace& t, Ctx& c) override
    {
        auto model = mdb::Make(static_cast<uint64_t>(t.get("db")));
        auto db = Lib([&] { return mdb::Load(*model); });
        int form = static_cast<int>(t.get("src"));
        const bool sh = IsShort(form);
        bool raw = form == mdb::F_BIN || form == mdb::F_JSON; // nothing on the way is plain text
        for (const Op& o : t.ops)
        {
            if (o.k == "hop" && o.at(0) != mdb::F_BIN && o.at(0) != mdb::F_JSON && o.at(0) != mdb::F_FLAT) { raw = false; }
        }
        std::vector<const Op*> hops;
        std::vector<Item> items;
        for (const Op& o : t.ops)
        {
            if (o.k == "hop" && o.at(0) >= 0 && o.at(0) < mdb::F_N && (IsShort(static_cast<int>(o.at(0))) == sh || o.at(0) == mdb::F_FLAT)) { hops.push_back(&o); }
            if (o.k == "msg")
            {
                Item i;
                i.m = &model->msgs[static_cast<size_t>(o.at(0)) % model->msgs.size()];
                const size_t di = sh ? i.m->defs.size() - 1 : static_cast<size_t>(o.at(1)) % i.m->defs.size();
                i.f = &i.m->defs[di].second;
                Rng r(static_cast<uint64_t>(o.at(2)) + 77);
                i.h = mdb::RandomHdr(*model, *i.m, r);
                i.h.crc = static_cast<uint16_t>(i.m->defs[di].first);
                mdb::BodyOpt bo;
                if (o.at(3) & 1) { bo.bigChance = 3; }
                bo.text = !raw;
                if (raw) { c.probe("text_only_json_can_carry"); }
                i.row = mdb::RandomBody(*model, *i.f, r, bo);
                items.push_back(i);
            }
        }
        std::vector<Item> flow; // what travels on the current link, in order
        for (auto& i : items)
        {
            if (Sent(*model, i, form).size() < 30000 && (form != mdb::F_SBIN || mdb::EncBin(*i.f, i.row).size() <= 255)) { flow.push_back(i); }
        }
        size_t converted = 0;
        for (size_t hi = 0; hi < hops.size(); ++hi)
        {
            const Op& hop = *hops[hi];
            const int to = static_cast<int>(hop.at(0));
            // what cannot be carried by the next form is not sent
            std::vector<Item> carried;
            for (auto& i : flow)
            {
                if (Sent(*model, i, to).size() < 30000 && (to != mdb::F_SBIN || mdb::EncBin(*i.f, i.row).size() <= 255)) { carried.push_back(i); }
            }
            flow = carried;
            // link faults
            std::string stream;
            std::vector<Item> delivered;
            for (size_t i = 0; i < flow.size(); ++i)
            {
                int copies = 1;
                for (const Op& o : t.ops)
                {
                    if (static_cast<size_t>(o.at(0)) != hi || static_cast<size_t>(o.at(1)) != i) { continue; }
                    if (o.k == "drop")
                    {
                        copies = 0;
                        c.fault("message_lost");
                    }
                    else if (o.k == "dup" && copies)
                    {
                        copies = 2;
                        c.fault("message_duplicated");
                    }
                    else if (o.k == "noise" && form != mdb::F_ABB && form != mdb::F_SABB)
                    {
                        for (int64_t k = 0; k < 1 + o.at(2) % 40; ++k) { stream += static_cast<char>('a' + (o.at(2) * 7 + k) % 26); }
                        c.fault("line_noise");
                    }
                }
                for (int k = 0; k < copies; ++k)
                {
                    stream += Sent(*model, flow[i], form);
                    delivered.push_back(flow[i]);
                }
            }
            if (form == mdb::F_ABB || form == mdb::F_SABB) { stream += "[COM1]"; }
            if (form == mdb::F_SBIN)
            {
                for (auto& d : delivered) { d.h.type = 0; }
            }
            flow = delivered;
            c.simBytes += stream.size();
            // deliver in pieces
            Rng lr(static_cast<uint64_t>(hop.at(2)) + 5);
            const size_t maxPiece = static_cast<size_t>(std::max<int64_t>(1, hop.at(3)));
            std::vector<std::string> got;
            const bool viaParser = hop.at(1) != 0 && form != mdb::F_JSON;
            Node node(db);
            FramerFeed ff(form == mdb::F_JSON);
            std::unique_ptr<ParserFeed> pf;
            if (viaParser) { pf = std::make_unique<ParserFeed>(db, FormatOf(to)); }
            IntermediateHeader ih;
            CompositeField cf;
            for (size_t off = 0; off < stream.size();)
            {
                const size_t n = std::min(stream.size() - off, static_cast<size_t>(lr.range(1, static_cast<int64_t>(maxPiece))));
                const std::string piece = stream.substr(off, n);
                off += n;
                const bool poll = hop.at(4) == 0 || lr.chance(1, 3) || off == stream.size();
                if (viaParser)
                {
                    std::vector<ParserFeed::Item> out;
                    pf->feed(piece, out, c);
                    while (poll && pf->drain(out)) { ++c.calls; }
                    for (auto& i : out)
                    {
                        if (i.unknown)
                        {
                            c.check(i.st == static_cast<int>(STATUS::UNKNOWN), "C21:parser-status",
                                    "the parser answers " + std::string(novatel::edie::StatusToString(static_cast<STATUS>(i.st))) + " for a well-formed " + mdb::FormName(form) + " message of the chain (to " + mdb::FormName(to) + ")");
                            continue;
                        }
                        c.ev("sent", {static_cast<int64_t>(hi)}, i.bytes);
                        got.push_back(i.bytes);
                    }
                    continue;
                }
                std::vector<Framed> fs;
                ff.feed(piece, fs, poll);
                for (auto& f : fs)
                {
                    if (f.unknown) { continue; }
                    ++c.calls;
                    Out o = node.convert(f.bytes, FormatOf(to), ih, cf, f.md);
                    c.ev("sent", {static_cast<int64_t>(hi), o.st}, o.bytes);
                    if (o.stage != 'D')
                    {
                        const std::string want = got.size() < flow.size() ? Sent(*model, flow[got.size()], to) : "";
                        c.fail(std::string("C21:hop-fails-") + o.stage, std::string(mdb::FormName(form)) + " message cannot be turned into " + mdb::FormName(to) + ": " + o.show() + "; message '" +
                                                                            sim::Printable(f.bytes, 300) + "' expected '" + sim::Printable(want, 300) + "'");
                    }
                    c.check(o.partsOk && o.hdr.size() + o.body.size() <= o.bytes.size(), "C21:parts", "the reported header and body do not lie inside the encoded message");
                    got.push_back(o.bytes);
                }
            }
            for (size_t i = 0; i < std::max(got.size(), flow.size()); ++i)
            {
                if (i >= got.size() || i >= flow.size())
                {
                    const std::string miss = i < flow.size() ? Sent(*model, flow[i], form) : "";
                    c.fail("C21:count", std::to_string(got.size()) + " messages leave hop " + std::to_string(hi) + " (" + mdb::FormName(form) + " to " + mdb::FormName(to) + "), " +
                                            std::to_string(flow.size()) + " entered it; first without counterpart: '" + sim::Printable(i < got.size() ? got[i] : miss, 300) + "'");
                }
                const std::string want = Sent(*model, flow[i], to);
                if (got[i] != want)
                {
                    size_t k = 0;
                    while (k < got[i].size() && k < want.size() && got[i][k] == want[k]) { ++k; }
                    c.fail("C21:values", std::string(mdb::FormName(form)) + " to " + mdb::FormName(to) + " differs at byte " + std::to_string(k) + ": got '" + sim::Printable(got[i], 400) + "' want '" +
                                             sim::Printable(want, 400) + "'; source '" + sim::Printable(Sent(*model, flow[i], form), 400) + "'");
                }
                ++converted;
            }
            form = to;
            c.probe(mdb::FormName(form));
            if (form == mdb::F_FLAT) { break; }
        }
        c.nontrivial = converted;
    }
};
SIM_SCENARIO("C21", Relay)
} // namespace
