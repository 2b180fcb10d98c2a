// C25: decoded messages held by the application while everything that produced them moves on.
// C26: definitions changed under components in use.
#include "traffic.hpp"

#include "novatel_edie/decoders/common/json_db_reader.hpp"

#include <algorithm>
#include <set>
#include <cstring>

namespace {
using namespace cd;
using novatel::edie::BaseField;
using novatel::edie::FieldArray;
using novatel::edie::FieldInfo;
using novatel::edie::TypedBuffer;
using sim::Ctx;
using sim::Lib;
using sim::Op;
using sim::Rng;
using sim::Trace;
using Model = std::shared_ptr<const mdb::Db>;

const int kForms[] = {mdb::F_BIN, mdb::F_SBIN, mdb::F_ASC, mdb::F_SASC, mdb::F_ABB, mdb::F_SABB, mdb::F_JSON};
const ENCODE_FORMAT kTo[] = {ENCODE_FORMAT::BINARY, ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON, ENCODE_FORMAT::FLATTENED_BINARY};
const int kToLong[] = {mdb::F_BIN, mdb::F_ASC, mdb::F_ABB, mdb::F_JSON, mdb::F_FLAT};
const int kToShort[] = {mdb::F_SBIN, mdb::F_SASC, mdb::F_SABB, mdb::F_JSON, mdb::F_FLAT};
std::string StName(int st) { return std::string(novatel::edie::StatusToString(static_cast<STATUS>(st))); }
size_t Mod(int64_t v, size_t n) { return n ? static_cast<size_t>(static_cast<uint64_t>(v) % n) : 0; }

// ------------------------------------------------------------------ accessors against the model
template <class F> void WithType(const mdb::Fld& f, F&& fn)
{
    using mdb::DT;
    if (f.k == mdb::K::ENUM)
    {
        switch (f.len)
        {
        case 1: fn(int8_t{}); return;
        case 2: fn(int16_t{}); return;
        default: fn(int32_t{}); return;
        }
    }
    switch (f.dt)
    {
    case DT::BOOL: fn(bool{}); return;
    case DT::CHAR: fn(int8_t{}); return;
    case DT::UCHAR:
    case DT::HEXBYTE: fn(uint8_t{}); return;
    case DT::SHORT: fn(int16_t{}); return;
    case DT::USHORT: fn(uint16_t{}); return;
    case DT::INT:
    case DT::LONG: fn(int32_t{}); return;
    case DT::UINT:
    case DT::ULONG:
    case DT::SATELLITEID: fn(uint32_t{}); return;
    case DT::LONGLONG: fn(int64_t{}); return;
    case DT::ULONGLONG: fn(uint64_t{}); return;
    case DT::FLOAT: fn(float{}); return;
    default: fn(double{}); return;
    }
}
template <class T> uint64_t Bits(T v)
{
    if constexpr (std::is_same_v<T, bool>) { return v ? 1 : 0; }
    uint64_t b = 0;
    std::memcpy(&b, &v, sizeof v);
    return b;
}
template <class T> uint64_t Want(uint64_t e)
{
    if constexpr (std::is_same_v<T, bool>) { return e & 1; }
    if constexpr (sizeof(T) < 8) { return e & ((1ull << (8 * sizeof(T))) - 1); }
    return e;
}
template <class F> bool Throws(F&& f)
{
    try
    {
        Lib([&] { (void)f(); });
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}
struct Checker
{
    Ctx& c;
    std::string who;
    uint64_t reads = 0;
    void bad(const std::string& path, const std::string& why) { c.fail("C25:value", who + ": field " + path + " " + why); }
    template <class Acc> void row(const mdb::Flds& fs, const mdb::Row& r, const Acc& a, const FieldInfo* info, const std::string& path)
    {
        if (!info) { return bad(path, "has no field definitions"); }
        for (size_t i = 0; i < fs.size(); ++i)
        {
            const mdb::Fld& f = fs[i];
            const std::string p = path + "/" + f.name;
            const auto fd = info->GetFieldDefByName(f.name);
            if (!fd) { return bad(p, "is not known by name"); }
            field(f, r[i], a, *fd, p);
        }
    }
    template <class Acc> void field(const mdb::Fld& f, const mdb::Cell& v, const Acc& a, const BaseField& fd, const std::string& p)
    {
        switch (f.k)
        {
        case mdb::K::SIMPLE:
        case mdb::K::ENUM:
            WithType(f, [&](auto tag) {
                using T = decltype(tag);
                const T x = Lib([&] { return a.template GetFieldValue<T>(fd); });
                const T y = Lib([&] { return a.template GetFieldValueByName<T>(f.name); });
                reads += 2;
                if (Bits(x) != Want<T>(v.e[0]) || Bits(y) != Want<T>(v.e[0]))
                {
                    bad(p, "reads " + std::to_string(Bits(x)) + " and " + std::to_string(Bits(y)) + " by name instead of " + std::to_string(Want<T>(v.e[0])));
                }
                if (!Throws([&] { return a.template GetFieldValue<TypedBuffer<T>>(fd); })) { bad(p, "can be read as an array"); }
            });
            if (!Throws([&] { return a.template GetFieldValue<std::string>(fd); })) { bad(p, "can be read as a string"); }
            break;
        case mdb::K::FIXED:
            WithType(f, [&](auto tag) {
                using T = decltype(tag);
                if constexpr (!std::is_same_v<T, bool>)
                {
                    const auto x = Lib([&] { return a.template GetFieldValue<TypedBuffer<T>>(fd); });
                    if (x.size() != f.alen) { return bad(p, "has " + std::to_string(x.size()) + " elements instead of " + std::to_string(f.alen)); }
                    for (size_t k = 0; k < f.alen; ++k)
                    {
                        const uint64_t w = Want<T>(k < v.e.size() ? v.e[k] : 0);
                        const T y = Lib([&] { return a.template GetFieldValue<T>(fd, k); });
                        if (Bits(static_cast<T>(x[k])) != w || Bits(y) != w) { return bad(p, "element " + std::to_string(k) + " reads " + std::to_string(Bits(static_cast<T>(x[k]))) + " and " + std::to_string(Bits(y)) + " instead of " + std::to_string(w)); }
                    }
                    reads += f.alen;
                    if (!Throws([&] { return a.template GetFieldValue<T>(fd, f.alen); })) { bad(p, "has an element beyond its last"); }
                    if (!Throws([&] { return x[f.alen]; })) { bad(p, "has an element beyond its last (array view)"); }
                }
            });
            break;
        case mdb::K::VAR:
            WithType(f, [&](auto tag) {
                using T = decltype(tag);
                if constexpr (!std::is_same_v<T, bool>)
                {
                    if constexpr (std::is_same_v<Acc, CompositeField>)
                    {
                        const auto x = Lib([&] { return a.template GetFieldValue<std::vector<T>>(fd); });
                        if (x.size() != v.e.size()) { return bad(p, "has " + std::to_string(x.size()) + " elements instead of " + std::to_string(v.e.size())); }
                        if (a.GetFieldSize(fd) != v.e.size() || a.GetFieldByteSize(fd) != v.e.size() * sizeof(T)) { return bad(p, "reports a wrong size"); }
                    }
                    for (size_t k = 0; k < v.e.size(); ++k)
                    {
                        const T y = Lib([&] { return a.template GetFieldValue<T>(fd, k); });
                        if (Bits(y) != Want<T>(v.e[k])) { return bad(p, "element " + std::to_string(k) + " reads " + std::to_string(Bits(y)) + " instead of " + std::to_string(Want<T>(v.e[k]))); }
                    }
                    reads += v.e.size();
                    if (!Throws([&] { return a.template GetFieldValue<T>(fd, v.e.size()); })) { bad(p, "has an element beyond its last"); }
                    using O = std::conditional_t<std::is_same_v<T, uint16_t>, int64_t, uint16_t>;
                    if (!Throws([&] { return a.template GetFieldValue<O>(fd, 0); })) { bad(p, "can be read as elements of another type"); }
                }
            });
            break;
        case mdb::K::STRING: {
            const std::string x = Lib([&] { return a.template GetFieldValue<std::string>(fd); });
            ++reads;
            if (x != v.s) { bad(p, "reads '" + sim::Printable(x, 80) + "' instead of '" + sim::Printable(v.s, 80) + "'"); }
            if (!Throws([&] { return a.template GetFieldValue<uint32_t>(fd); })) { bad(p, "can be read as a number"); }
            break;
        }
        case mdb::K::FARR:
            if constexpr (std::is_same_v<Acc, CompositeField>) { rows(f, v, a, fd, p); }
            else { nested(f, v, a, fd, p); }
            break;
        }
    }
    template <class Acc> void nested(const mdb::Fld& f, const mdb::Cell& v, const Acc& a, const BaseField& fd, const std::string& p)
    {
        const auto* def = dynamic_cast<const novatel::edie::FieldArrayField*>(&fd);
        if (!def) { return bad(p, "has no array definition"); }
        size_t n = 0;
        auto each = [&](const auto& arr) {
            n = arr.size();
            for (size_t k = 0; k < std::min(n, v.rows.size()); ++k)
            {
                if constexpr (std::is_same_v<std::decay_t<decltype(arr)>, novatel::edie::FlatFieldArray>) { row(f.sub, v.rows[k], arr[k], def->fieldInfo.get(), p + "[" + std::to_string(k) + "]"); }
                else { row(f.sub, v.rows[k], novatel::edie::FieldArrayRecordView(arr[k], def->fieldInfo.get()), def->fieldInfo.get(), p + "[" + std::to_string(k) + "]"); }
            }
        };
        if (Throws([&] { return a.template GetFieldValue<novatel::edie::FlatFieldArray>(fd); }))
        {
            const auto arr = Lib([&] { return a.template GetFieldValue<novatel::edie::CompositeFieldArray>(fd); });
            each(arr);
        }
        else
        {
            const auto arr = Lib([&] { return a.template GetFieldValue<novatel::edie::FlatFieldArray>(fd); });
            each(arr);
        }
        if (n != v.rows.size()) { bad(p, "has " + std::to_string(n) + " rows instead of " + std::to_string(v.rows.size())); }
    }
    template <class Acc> void rows(const mdb::Fld& f, const mdb::Cell& v, const Acc& a, const BaseField& fd, const std::string& p)
    {
        const FieldArray fa = Lib([&] { return a.template GetFieldValue<FieldArray>(fd); });
        if (fa.size() != v.rows.size() || fa.empty() != v.rows.empty()) { return bad(p, "has " + std::to_string(fa.size()) + " rows instead of " + std::to_string(v.rows.size())); }
        size_t k = 0;
        for (auto it = fa.begin(); it != fa.end(); ++it, ++k)
        {
            row(f.sub, v.rows[k], *it, fa.GetFieldInfo(), p + "[" + std::to_string(k) + "]");
            row(f.sub, v.rows[k], fa[k], fa.GetFieldInfo(), p + "[" + std::to_string(k) + "]");
        }
        for (const auto& s : f.sub)
        {
            if (s.k != mdb::K::SIMPLE) { continue; }
            WithType(s, [&](auto tag) {
                using T = decltype(tag);
                for (size_t beyond : {v.rows.size(), v.rows.size() + 1000})
                {
                    if (!Throws([&] { return fa.template GetFieldValueByName<T>(s.name, beyond); })) { bad(p, "has a row beyond its last"); }
                }
            });
            break;
        }
    }
};

// ------------------------------------------------------------------ C25
struct Held
{
    std::unique_ptr<CompositeField> cf;
    Made made; // of 'model', if modelled
    Model model;
    int modelIx = 0;
    bool modelled = false, mutated = false;
    IntermediateHeader ih;
    MetaDataStruct md;
    std::string dump;
    std::string enc[5];
    int encSt[5] = {-2, -2, -2, -2, -2};
};
struct Kept : sim::Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["dbA"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        t.cfg["dbB"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        t.cfg["fill"] = r.pick<int64_t>({0x00, 0xFF, 0x41, 0xA5});
        const std::vector<unsigned> w = {8, 1, 2, static_cast<unsigned>(r.below(3)), 0, 2, 1, 1};
        const int n = static_cast<int>(r.range(4, thorough ? 40 : 16));
        auto slot = [&] { return static_cast<int64_t>(r.below(8)); };
        for (int i = 0; i < n; ++i)
        {
            switch (i < 2 ? 0 : r.below(14))
            {
            default: {
                auto a = RandomNums(r, kForms[r.below(7)], w);
                a.push_back(r.chance(1, 3) ? slot() : -1); // decode into a held message, or a new one
                t.add("dec", a);
                break;
            }
            case 4: t.add("copy", {slot()}); break;
            case 5: t.add("assign", {slot(), slot()}); break;
            case 6: t.add("move", {slot()}); break;
            case 7: t.add("swap", {slot(), slot()}); break;
            case 8: t.add("drop", {slot()}); break;
            case 9:
            case 10: t.add("mut", {slot(), static_cast<int64_t>(r.below(20)), static_cast<int64_t>(r.below(1u << 30))}); break;
            case 11: t.add("node", {static_cast<int64_t>(r.below(3))}); break;
            case 12: t.add("db", {static_cast<int64_t>(r.below(6)), static_cast<int64_t>(r.below(12))}); break;
            case 13: t.add("vector"); break;
            }
        }
    }
    struct World
    {
        Model m[2];
        DbPtr ref[2]; // untouched databases for the reference encoders
        std::unique_ptr<Node> enc[2];
        DbPtr db; // the one in use
        int modelOf = 0; // which model it matches, -1: none any more
        std::unique_ptr<Node> node;
        std::vector<Held> held;
    };
    static void Snapshot(World& w, Held& h, int f, Ctx& c, bool first)
    {
        Node& n = *w.enc[h.modelIx];
        const size_t size = 200000;
        static std::vector<unsigned char> buf(size);
        unsigned char* q = buf.data();
        MessageDataStruct ms;
        int st;
        std::string out;
        try
        {
            st = static_cast<int>(Lib([&] { return n.enc.Encode(&q, static_cast<uint32_t>(size), h.ih, *h.cf, ms, h.md.eFormat, kTo[f]); }));
            if (st == 0) { out.assign(reinterpret_cast<char*>(ms.pucMessage), ms.uiMessageLength); }
        }
        catch (const std::exception& e)
        {
            st = -1;
            out = e.what();
        }
        ++c.calls;
        if (first)
        {
            h.enc[f] = out;
            h.encSt[f] = st;
        }
        else
        {
            c.check(st == h.encSt[f] && out == h.enc[f], "C25:encode",
                    std::string(mdb::FormName(h.made.form)) + " message '" + sim::Printable(h.made.frame, 200) + "' encoded to format " + std::to_string(f) + " as '" + sim::Printable(h.enc[f], 300) + "' (" + StName(h.encSt[f]) +
                        ") when it was decoded, but now as '" + sim::Printable(out, 900) + "' (" + StName(st) + ")");
        }
        if (st == 0 && h.modelled && h.made.valid && !h.made.response)
        {
            if (h.mutated && f != 0 && f != 4) { return; }
            const std::string want = Expected(*h.model, h.made, (IsShort(h.made.form) ? kToShort : kToLong)[f]);
            if (!want.empty()) { c.check(out == want, "C25:encode-model", std::string(mdb::FormName(h.made.form)) + " message, " + (h.mutated ? "changed by the application, " : "") + "encoded to format " + std::to_string(f) + " as '" + sim::Printable(out, 900) + "' instead of '" + sim::Printable(want, 900) + "'"); }
        }
    }
    static void Verify(World& w, Ctx& c, const std::string& after, int step, uint64_t& reads)
    {
        for (size_t i = 0; i < w.held.size(); ++i)
        {
            Held& h = w.held[i];
            const std::string d = Lib([&] { return Dump(*h.cf); });
            if (d != h.dump)
            {
                c.fail("C25:contents", std::string("a held ") + mdb::FormName(h.made.form) + " message '" + sim::Printable(h.made.frame, 200) + "' changed after " + after + ": " + h.dump.substr(0, 500) + " is now " + d.substr(0, 500));
            }
            if (h.modelled && h.made.valid && !h.made.response)
            {
                Checker ck{c, std::string(mdb::FormName(h.made.form)) + " message '" + sim::Printable(h.made.frame, 200) + "' after " + after};
                ck.row(*h.made.f, h.made.row, *h.cf, h.cf->GetFieldInfo().get(), "");
                reads += ck.reads;
            }
            Snapshot(w, h, (step + static_cast<int>(i)) % 5, c, false);
        }
    }
    static void Decode(World& w, const Op& o, Ctx& c)
    {
        const int mi = w.modelOf >= 0 ? w.modelOf : static_cast<int>(o.at(2) & 1);
        Held h;
        h.model = w.m[mi];
        h.modelIx = mi;
        h.modelled = w.modelOf >= 0;
        h.made = MakeMsg(*h.model, o);
        if (h.made.frame.empty() || !w.node) { return; }
        const int64_t into = o.at(6);
        std::unique_ptr<Held> old;
        if (into >= 0 && !w.held.empty())
        {
            const size_t ix = Mod(into, w.held.size());
            h.cf = std::move(w.held[ix].cf);
            w.held.erase(w.held.begin() + static_cast<long>(ix));
        }
        else { h.cf = std::make_unique<CompositeField>(); }
        h.md = MetaFor(h.made.form, h.made.frame, h.made.response);
        sim::GuardedBuf in(h.made.frame.size());
        std::memcpy(in.data(), h.made.frame.data(), h.made.frame.size());
        STATUS st = STATUS::FAILURE;
        try
        {
            st = Lib([&] { return w.node->hd.Decode(in.data(), h.ih, h.md); });
            if (st == STATUS::SUCCESS && h.md.uiHeaderLength <= h.made.frame.size()) { st = Lib([&] { return w.node->md.Decode(in.data() + h.md.uiHeaderLength, *h.cf, h.md); }); }
        }
        catch (const std::exception&)
        {
            st = STATUS::FAILURE; // C20 decides that
        }
        ++c.calls;
        c.ev("dec", {h.made.form, static_cast<int64_t>(st)});
        if (st != STATUS::SUCCESS)
        {
            c.check(!(h.modelled && h.made.valid), "C25:refused", std::string("a valid ") + mdb::FormName(h.made.form) + " message is refused: " + StName(static_cast<int>(st)) + " '" + sim::Printable(h.made.frame, 200) + "'");
            c.fault("decoding_refused");
            return;
        }
        std::memset(in.data(), 0x7E, h.made.frame.size()); // the input buffer is reused at once
        h.dump = Lib([&] { return Dump(*h.cf); });
        for (int f = 0; f < 5; ++f) { Snapshot(w, h, f, c, true); }
        if (w.held.size() >= 6) { w.held.erase(w.held.begin()); }
        w.held.push_back(std::move(h));
    }
    static bool Referenced(const mdb::Flds& fs, const std::string& name)
    {
        for (const auto& f : fs)
        {
            if (f.ref == name) { return true; }
        }
        return false;
    }
    static void Mutate(Held& h, const Op& o, Ctx& c)
    {
        if (!h.modelled || !h.made.valid || h.made.response) { return; }
        const mdb::Flds& fs = *h.made.f;
        if (fs.empty()) { return; }
        const size_t i = Mod(o.at(1), fs.size());
        const mdb::Fld& f = fs[i];
        if (!f.ref.empty() || Referenced(fs, f.name)) { return; }
        Rng r(static_cast<uint64_t>(o.at(2)) + 5);
        mdb::Cell& cell = h.made.row[i];
        const auto fd = h.cf->GetFieldInfo()->GetFieldDefByName(f.name);
        if (!fd) { return; }
        const mdb::Row fresh = mdb::RandomBody(*h.model, fs, r);
        switch (f.k)
        {
        case mdb::K::SIMPLE:
        case mdb::K::ENUM:
            WithType(f, [&](auto tag) {
                using T = decltype(tag);
                T v{};
                if constexpr (std::is_same_v<T, bool>) { v = fresh[i].e[0] & 1; }
                else { std::memcpy(&v, &fresh[i].e[0], sizeof v); }
                Lib([&] { h.cf->SetFieldValue(*fd, T{v}); });
            });
            cell = fresh[i];
            break;
        case mdb::K::STRING:
            Lib([&] { h.cf->SetFieldValue(*fd, std::string(fresh[i].s)); });
            cell = fresh[i];
            break;
        case mdb::K::VAR:
            WithType(f, [&](auto tag) {
                using T = decltype(tag);
                if constexpr (!std::is_same_v<T, bool>)
                {
                    std::vector<T> v;
                    for (uint64_t e : fresh[i].e)
                    {
                        T x{};
                        std::memcpy(&x, &e, sizeof x);
                        v.push_back(x);
                    }
                    Lib([&] { h.cf->SetFieldValue(*fd, std::move(v)); });
                }
            });
            cell = fresh[i];
            break;
        case mdb::K::FIXED:
            WithType(f, [&](auto tag) {
                using T = decltype(tag);
                if constexpr (!std::is_same_v<T, bool>)
                {
                    for (size_t k = 0; k < f.alen; ++k)
                    {
                        T x{};
                        const uint64_t e = k < fresh[i].e.size() ? fresh[i].e[k] : 0;
                        std::memcpy(&x, &e, sizeof x);
                        Lib([&] { h.cf->SetArrayElement(*fd, k, x); });
                    }
                }
            });
            cell = fresh[i];
            break;
        default: return;
        }
        h.mutated = true;
        h.dump = Lib([&] { return Dump(*h.cf); });
        c.probe("message_changed_by_application");
    }
    void run(const Trace& t, Ctx& c) override
    {
        sim::g_fill = static_cast<int>(t.get("fill"));
        World w;
        w.m[0] = mdb::Make(static_cast<uint64_t>(t.get("dbA")));
        w.m[1] = mdb::Make(static_cast<uint64_t>(t.get("dbB")) + 1000);
        for (int i = 0; i < 2; ++i)
        {
            w.ref[i] = Lib([&] { return mdb::Load(*w.m[i]); });
            w.enc[i] = std::make_unique<Node>(w.ref[i]);
        }
        w.db = Lib([&] { return mdb::Load(*w.m[0]); });
        w.node = std::make_unique<Node>(w.db);
        int step = 0;
        uint64_t reads = 0;
        for (const Op& o : t.ops)
        {
            std::string what = o.k;
            const size_t n = w.held.size();
            if (o.k == "dec") { Decode(w, o, c); }
            else if (o.k == "copy" && n)
            {
                const Held& s = w.held[Mod(o.at(0), n)];
                Held h;
                h.made = s.made, h.model = s.model, h.modelIx = s.modelIx, h.modelled = s.modelled, h.mutated = s.mutated, h.ih = s.ih, h.md = s.md, h.dump = s.dump;
                for (int f = 0; f < 5; ++f) { h.enc[f] = s.enc[f], h.encSt[f] = s.encSt[f]; }
                h.cf = Lib([&] { return std::make_unique<CompositeField>(*s.cf); });
                if (n >= 6) { w.held.erase(w.held.begin()); }
                w.held.push_back(std::move(h));
                c.fault("copied");
            }
            else if (o.k == "assign" && n)
            {
                Held& d = w.held[Mod(o.at(0), n)];
                const Held& s = w.held[Mod(o.at(1), n)];
                Lib([&] { *d.cf = *s.cf; });
                if (&d != &s)
                {
                    d.made = s.made, d.model = s.model, d.modelIx = s.modelIx, d.modelled = s.modelled, d.mutated = s.mutated, d.ih = s.ih, d.md = s.md, d.dump = s.dump;
                    for (int f = 0; f < 5; ++f) { d.enc[f] = s.enc[f], d.encSt[f] = s.encSt[f]; }
                }
                c.fault("assigned");
            }
            else if (o.k == "move" && n)
            {
                Held& s = w.held[Mod(o.at(0), n)];
                auto moved = Lib([&] { return std::make_unique<CompositeField>(std::move(*s.cf)); });
                s.cf = std::move(moved); // the moved-from object is destroyed
                c.fault("moved");
            }
            else if (o.k == "swap" && n)
            {
                Held& a = w.held[Mod(o.at(0), n)];
                Held& b = w.held[Mod(o.at(1), n)];
                if (&a != &b)
                {
                    Lib([&] { std::swap(*a.cf, *b.cf); });
                    std::swap(a, b);
                    std::swap(a.cf, b.cf);
                }
                c.fault("moved");
            }
            else if (o.k == "drop" && n) { w.held.erase(w.held.begin() + static_cast<long>(Mod(o.at(0), n))); }
            else if (o.k == "mut" && n)
            {
                Held& h = w.held[Mod(o.at(0), n)];
                Mutate(h, o, c);
                if (h.mutated)
                {
                    for (int f = 0; f < 5; ++f) { Snapshot(w, h, f, c, true); }
                }
            }
            else if (o.k == "node")
            {
                // the components are destroyed and replaced
                w.node.reset();
                switch (Mod(o.at(0), 3))
                {
                case 0: break;
                case 1:
                    w.db.reset();
                    w.db = Lib([&] { return mdb::Load(*w.m[0]); });
                    w.modelOf = 0;
                    c.fault("database_destroyed");
                    break;
                default:
                    w.db.reset();
                    w.db = Lib([&] { return mdb::Load(*w.m[1]); });
                    w.modelOf = 1;
                    c.fault("database_destroyed");
                    break;
                }
                w.node = std::make_unique<Node>(w.db);
                c.fault("components_destroyed");
            }
            else if (o.k == "db")
            {
                const auto& other = w.ref[1 - std::max(0, w.modelOf)];
                switch (Mod(o.at(0), 6))
                {
                case 0:
                    if (!w.db->MessageDefinitions().empty())
                    {
                        const auto id = w.db->MessageDefinitions()[Mod(o.at(1), w.db->MessageDefinitions().size())]->logID;
                        Lib([&] { w.db->RemoveMessage(id); });
                    }
                    w.modelOf = -1;
                    break;
                case 1: Lib([&] { w.db->AppendMessages(other->MessageDefinitions()); }), w.modelOf = -1; break;
                case 2: Lib([&] { w.db->AppendEnumerations(other->EnumDefinitions()); }), w.modelOf = -1; break;
                case 3: Lib([&] { w.db->Merge(*other); }), w.modelOf = -1; break;
                case 4:
                    if (!w.db->EnumDefinitions().empty())
                    {
                        const std::string nm = w.db->EnumDefinitions()[Mod(o.at(1), w.db->EnumDefinitions().size())]->name;
                        Lib([&] { w.db->RemoveEnumeration(nm); });
                    }
                    w.modelOf = -1;
                    break;
                default: // the components get another database
                    w.modelOf = w.modelOf == 0 ? 1 : 0;
                    w.db = Lib([&] { return mdb::Load(*w.m[w.modelOf]); });
                    Lib([&] { w.node->hd.LoadJsonDb(w.db), w.node->md.LoadJsonDb(w.db), w.node->enc.LoadJsonDb(w.db); });
                    break;
                }
                w.node->db = w.db;
                what += std::to_string(Mod(o.at(0), 6));
                c.fault("database_changed");
            }
            else if (o.k == "vector" && n)
            {
                std::vector<CompositeField> v;
                for (auto& h : w.held) { Lib([&] { v.push_back(std::move(*h.cf)); }); }
                std::vector<CompositeField> v2 = Lib([&] { return v; });
                v.clear();
                for (size_t i = 0; i < n; ++i) { Lib([&] { *w.held[i].cf = std::move(v2[i]); }); }
                c.fault("moved");
            }
            Verify(w, c, what, step++, reads);
            c.mix(w.held.size());
        }
        // everything that produced the messages goes away
        w.node.reset();
        w.db.reset();
        Verify(w, c, "destroying the components and the database", step, reads);
        sim::g_fill = -1;
        c.nontrivial = reads > 3 ? reads : 0;
    }
};
SIM_SCENARIO("C25", Kept)

// ------------------------------------------------------------------ C26
// A node in use is given other databases, and its database gets new definitions; it must do exactly what a node created
// now, with a database built from the current definitions, does.
struct Redefined : sim::Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["dbA"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        t.cfg["dbB"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        t.cfg["dbC"] = static_cast<int64_t>(r.below(thorough ? 400 : 60));
        const int n = static_cast<int>(r.range(4, thorough ? 36 : 14));
        for (int i = 0; i < n; ++i)
        {
            switch (i < 1 ? 0 : r.below(12))
            {
            default: {
                auto a = RandomNums(r, kForms[r.below(7)], {8, 0, 3, 1, 0});
                a.push_back(static_cast<int64_t>(r.below(5)));                  // format
                a.push_back(r.chance(2, 3) ? 0 : static_cast<int64_t>(r.below(4))); // which definitions the sender uses
                a.push_back(r.chance(1, 4));                                     // through the parser
                t.add("use", a);
                break;
            }
            case 6: t.add("load", {static_cast<int64_t>(r.below(3)), static_cast<int64_t>(r.below(2))}); break;
            case 7:
            case 8: t.add("message", {static_cast<int64_t>(r.below(10)), static_cast<int64_t>(r.below(2))}); break;
            case 9: t.add("enum", {static_cast<int64_t>(r.below(30)), static_cast<int64_t>(r.below(1u << 30))}); break;
            case 10: t.add("remove", {static_cast<int64_t>(r.below(10))}); break;
            case 11: t.add("hold"); break;
            }
        }
    }
    struct World
    {
        std::vector<Model> base; // A, B, C
        std::vector<Model> used; // every model so far; keeps Made's pointers alive
        Model cur;
        DbPtr db;
        std::unique_ptr<Node> node;
        std::unique_ptr<ParserFeed> parser[5];
        uint64_t changes = 0;
    };
    struct Late // decoded earlier, encoded later
    {
        CompositeField cf;
        IntermediateHeader ih;
        MetaDataStruct md;
        std::string body; // of the text form, when it was decoded
        std::string frame;
    };
    static std::string Body(Node& n, const Late& l, int* stOut)
    {
        static std::vector<unsigned char> buf(200000);
        std::memcpy(buf.data(), "#HEADER;", 8);
        unsigned char* q = buf.data() + 8;
        MessageDataStruct ms;
        ms.pucMessage = ms.pucMessageHeader = buf.data();
        ms.uiMessageHeaderLength = 8;
        int st;
        try
        {
            st = static_cast<int>(Lib([&] {
                return n.enc.EncodeBody(&q, 199000, l.cf, l.cf.GetFieldInfo()->messageOrderedFields, ms, l.md.eFormat, ENCODE_FORMAT::ASCII);
            }));
        }
        catch (const std::exception&)
        {
            st = -1;
        }
        *stOut = st;
        return st == 0 ? std::string(reinterpret_cast<char*>(ms.pucMessageBody), ms.uiMessageBodyLength) : "";
    }
    static bool HasPackedName(const mdb::Flds& fs)
    {
        return std::any_of(fs.begin(), fs.end(), [](const mdb::Fld& f) { return f.letter() == "m" || HasPackedName(f.sub); });
    }
    static void LoadAll(World& w)
    {
        Lib([&] { w.node->hd.LoadJsonDb(w.db), w.node->md.LoadJsonDb(w.db), w.node->enc.LoadJsonDb(w.db); });
        for (auto& p : w.parser)
        {
            if (p) { Lib([&] { p->p.LoadJsonDb(w.db); }); }
        }
        w.node->db = w.db;
    }
    static void MapEnums(mdb::Flds& fs, size_t nEnums, bool& ok)
    {
        for (auto& f : fs)
        {
            if (f.k == mdb::K::ENUM)
            {
                if (nEnums <= 4) { ok = false; }
                else { f.enm = static_cast<int>(4 + (static_cast<size_t>(f.enm) % (nEnums - 4))); }
            }
            MapEnums(f.sub, nEnums, ok);
        }
    }
    static std::vector<ParserFeed::Item> Through(ParserFeed& p, const Made& m, Ctx& c)
    {
        std::vector<ParserFeed::Item> v;
        const bool abb = m.form == mdb::F_ABB || m.form == mdb::F_SABB;
        p.feed(abb ? m.frame + "[COM1]" : m.frame, v, c);
        while (p.drain(v)) {}
        p.drain(v, true);
        Lib([&] { p.p.Flush(); });
        return v;
    }
    void run(const Trace& t, Ctx& c) override
    {
        World w;
        w.base = {mdb::Make(static_cast<uint64_t>(t.get("dbA"))), mdb::Make(static_cast<uint64_t>(t.get("dbB"))), mdb::Make(static_cast<uint64_t>(t.get("dbC")))};
        w.cur = w.base[0];
        w.used.push_back(w.cur);
        w.db = Lib([&] { return mdb::Load(*w.cur); });
        w.node = std::make_unique<Node>(w.db);
        std::vector<Late> late;
        bool hold = true;
        uint64_t judged = 0;
        for (const Op& o : t.ops)
        {
            if (o.k == "load")
            {
                // which database, and whether it is the very same object again
                if (Mod(o.at(1), 2) == 1)
                {
                    LoadAll(w);
                    c.fault("same_database_reloaded");
                }
                else
                {
                    w.cur = w.base[Mod(o.at(0), 3)];
                    w.db = Lib([&] { return mdb::Load(*w.cur); });
                    LoadAll(w);
                    c.fault("database_replaced");
                    ++w.changes;
                }
            }
            else if (o.k == "message")
            {
                const Model src = w.base[1 + Mod(o.at(1), 2)];
                mdb::Msg m = src->msgs[Mod(o.at(0), src->msgs.size())];
                bool ok = true;
                for (auto& d : m.defs) { MapEnums(d.second, w.cur->enums.size(), ok); }
                const mdb::Msg* sameName = w.cur->byName(m.name);
                if (!ok || (sameName && sameName->id != m.id)) { continue; }
                mdb::Db donor;
                donor.enums = w.cur->enums;
                donor.msgs = {m};
                auto next = std::make_shared<mdb::Db>(*w.cur);
                const bool replaced = next->byId(m.id) != nullptr;
                next->msgs.erase(std::remove_if(next->msgs.begin(), next->msgs.end(), [&](const mdb::Msg& x) { return x.id == m.id; }), next->msgs.end());
                next->msgs.push_back(m);
                auto ddb = Lib([&] { return mdb::Load(donor); });
                Lib([&] { w.db->AppendMessages(ddb->MessageDefinitions()); });
                w.cur = next;
                c.fault(replaced ? "message_redefined" : "message_added");
                ++w.changes;
            }
            else if (o.k == "enum")
            {
                auto next = std::make_shared<mdb::Db>(*w.cur);
                const size_t ix = Mod(o.at(0), next->enums.size());
                mdb::Enm& e = next->enums[ix];
                Rng r(static_cast<uint64_t>(o.at(1)) + 9);
                if (ix == 0)
                {
                    // responses: values stay findable by description
                    e.v.push_back({static_cast<uint32_t>(900 + r.below(50)), "NEW_RESPONSE" + std::to_string(r.below(1000))});
                    while (e.desc.size() + 1 < e.v.size()) { e.desc.push_back("none " + std::to_string(e.desc.size())); }
                    e.desc.push_back("New description " + std::to_string(r.below(1000)));
                }
                else
                {
                    for (auto& p : e.v)
                    {
                        if (r.chance(1, 3)) { p.second += "_" + std::to_string(r.below(100)); }
                    }
                    e.v.push_back({static_cast<uint32_t>(100 + r.below(20)), "ADDED" + std::to_string(r.below(1000))});
                    std::set<uint32_t> seen;
                    for (size_t k = 0; k < e.v.size();)
                    {
                        if (!seen.insert(e.v[k].first).second) { e.v.erase(e.v.begin() + static_cast<long>(k)); }
                        else { ++k; }
                    }
                    if (e.desc.size() > e.v.size()) { e.desc.resize(e.v.size()); }
                }
                mdb::Db donor;
                donor.enums = {e};
                auto ddb = Lib([&] { return mdb::Load(donor); });
                Lib([&] { w.db->AppendEnumerations(ddb->EnumDefinitions()); });
                w.cur = next;
                if (ix < 4) { LoadAll(w); } // what headers and responses use takes effect when the component is given its database again
                c.fault("enumeration_redefined");
                ++w.changes;
            }
            else if (o.k == "remove")
            {
                if (w.cur->msgs.size() < 2) { continue; }
                auto next = std::make_shared<mdb::Db>(*w.cur);
                const size_t ix = Mod(o.at(0), next->msgs.size());
                const uint16_t id = next->msgs[ix].id;
                next->msgs.erase(next->msgs.begin() + static_cast<long>(ix));
                Lib([&] { w.db->RemoveMessage(id); });
                w.cur = next;
                c.fault("message_removed");
                ++w.changes;
            }
            else if (o.k == "hold") { hold = true; }
            else if (o.k == "use")
            {
                w.used.push_back(w.cur);
                const size_t from = Mod(o.at(7), 4);
                const Model sender = from == 0 ? w.cur : w.base[from - 1];
                const Made m = MakeMsg(*sender, o);
                if (m.frame.empty()) { continue; }
                const size_t fi = Mod(o.at(6), 5);
                const ENCODE_FORMAT to = kTo[fi];
                auto freshDb = Lib([&] { return mdb::Load(*w.cur); });
                const std::string what = std::string(mdb::FormName(m.form)) + " message '" + sim::Printable(m.frame, 300) + "' to format " + std::to_string(fi) + " after " + std::to_string(w.changes) + " changes of definitions: ";
                if (o.at(8))
                {
                    if (!w.parser[fi]) { w.parser[fi] = std::make_unique<ParserFeed>(w.db, to); }
                    ParserFeed fresh(freshDb, to);
                    const auto a = Through(*w.parser[fi], m, c), b = Through(fresh, m, c);
                    bool same = a.size() == b.size();
                    std::string sa, sb;
                    for (auto& i : a) { sa += (i.unknown ? "?" : "") + StName(i.st) + " '" + sim::Printable(i.bytes, 300) + "' "; }
                    for (auto& i : b) { sb += (i.unknown ? "?" : "") + StName(i.st) + " '" + sim::Printable(i.bytes, 300) + "' "; }
                    c.ev("parse", {m.form, static_cast<int64_t>(a.size())}, sa);
                    c.check(same && sa == sb, "C26:parser", what + "the parser in use delivers " + sa + ", a new one " + sb);
                    ++judged;
                    continue;
                }
                MetaDataStruct md = MetaFor(m.form, m.frame, m.response);
                IntermediateHeader ih, ih2;
                CompositeField cf, cf2;
                const Out a = w.node->convert(m.frame, to, ih, cf, md);
                Node fresh(freshDb);
                const Out b = fresh.convert(m.frame, to, ih2, cf2, md);
                ++judged;
                c.calls += 2;
                c.ev("use", {m.form, a.stage, a.st}, a.bytes);
                c.check(a.same(b), "C26:convert", what + "with the components in use: " + a.show() + " '" + sim::Printable(a.bytes, 300) + "'; with new ones: " + b.show() + " '" + sim::Printable(b.bytes, 300) + "'");
                if (a.stage == 'E' || a.stage == 'D')
                {
                    const std::string d1 = Dump(cf), d2 = Dump(cf2);
                    c.check(d1 == d2, "C26:fields", what + "fields " + d1.substr(0, 500) + " instead of " + d2.substr(0, 500));
                }
                if (a.stage != 'H') { c.check(DumpHdr(a.ih) == DumpHdr(b.ih) && DumpMeta(a.md) == DumpMeta(b.md), "C26:header", what + "header " + DumpHdr(a.ih) + " " + DumpMeta(a.md) + " instead of " + DumpHdr(b.ih) + " " + DumpMeta(b.md)); }
                if (from == 0 && m.valid && !m.response)
                {
                    const std::string want = Expected(*w.cur, m, (IsShort(m.form) ? kToShort : kToLong)[fi]);
                    if (!want.empty()) { c.check(a.stage == 'D' && a.bytes == want, "C26:definitions", what + a.show() + " '" + sim::Printable(a.bytes, 300) + "' instead of '" + sim::Printable(want, 900) + "'"); }
                }
                else if (from) { c.probe("sender_uses_other_definitions"); }
                if (hold && !m.response && (a.stage == 'D' || a.stage == 'E') && m.valid && from == 0 && !HasPackedName(*m.f))
                {
                    late.emplace_back();
                    Late& l = late.back();
                    l.cf = cf;
                    l.ih = a.ih;
                    l.md = a.md;
                    l.frame = m.frame;
                    int st = 0;
                    l.body = Body(*w.node, l, &st);
                    if (st != 0) { late.pop_back(); }
                    hold = late.size() < 3;
                }
            }
            // messages decoded earlier keep the definitions they were decoded with
            for (const Late& l : late)
            {
                int st = 0;
                const std::string now = Body(*w.node, l, &st);
                c.check(st == 0 && now == l.body, "C26:earlier", "message '" + sim::Printable(l.frame, 200) + "' decoded before " + o.k + " was encoded as '" + sim::Printable(l.body, 300) + "', now as '" + sim::Printable(now, 300) + "'");
            }
            c.mix(w.cur->msgs.size());
        }
        c.nontrivial = w.changes && judged > 1 ? judged : 0;
    }
};
SIM_SCENARIO("C26", Redefined)
} // namespace
