// C15: the message database against a list model, across whole histories of changes, copies and merges.
#include "../core.hpp"
#include "novatel_edie/decoders/common/common.hpp"
#include "novatel_edie/decoders/common/message_database.hpp"
#include "novatel_edie/decoders/oem/message_decoder.hpp"

#include <algorithm>
#include <optional>

using namespace sim;
namespace ne = novatel::edie;

namespace {
// ---------------------------------------------------------------- model
struct F
{
    char kind; // S simple, E enum, X fixed array, V variable array, T string, A field array
    std::string name, conv, enumId;
    ne::DATA_TYPE dt = ne::DATA_TYPE::ULONG;
    uint32_t len = 4, count = 1;
    std::vector<F> sub;
};
struct MDef
{
    uint32_t id = 0, latest = 0;
    std::string oid, name, desc, family;
    std::map<uint32_t, std::vector<F>> crc;
};
struct EDef
{
    std::string oid, name;
    std::vector<std::pair<uint32_t, std::string>> vals;
    bool operator==(const EDef& o) const { return oid == o.oid && name == o.name && vals == o.vals; }
};
struct MDb
{
    std::vector<MDef> msgs;
    std::vector<EDef> enums;
    std::string family;
    std::set<std::string> loose; // enum ids whose bindings are unspecified since a removal
    const EDef* EnumById(const std::string& i) const
    {
        for (auto it = enums.rbegin(); it != enums.rend(); ++it)
        {
            if (it->oid == i) { return &*it; }
        }
        return nullptr;
    }
};
size_t Pad(const std::string& fam, size_t len, size_t off)
{
    if (fam != "OEM") { return 0; }
    const size_t a = std::min<size_t>(4, len);
    return a ? (a - off % a) % a : 0;
}

const char* const MSGNAMES[] = {"BESTPOS", "TIME", "DATA", "DATAA", "RANGE", "BESTPOSB", "SATVIS", "R", "LOGB", "LOG"};
const char* const ENUMIDS[] = {"e0", "e1", "e2", "e3"};
const char* const ENUMNAMES[] = {"Commands", "Responses", "SolStatus", "SolType", "PortAddress"};
const char* const FAMILIES[] = {"OEM", "", "ACME"};

F MakeField(Rng& r, int depth)
{
    struct T { ne::DATA_TYPE t; uint32_t l; const char* c; };
    static const T ts[] = {{ne::DATA_TYPE::UCHAR, 1, "%u"}, {ne::DATA_TYPE::USHORT, 2, "%hu"}, {ne::DATA_TYPE::ULONG, 4, "%lu"},
                           {ne::DATA_TYPE::DOUBLE, 8, "%lf"}, {ne::DATA_TYPE::FLOAT, 4, "%f"}, {ne::DATA_TYPE::BOOL, 4, "%d"}};
    F f;
    const auto& t = ts[r.below(6)];
    f.dt = t.t; f.len = t.l; f.conv = t.c;
    f.kind = "SSEEXVTA"[r.below(depth > 1 ? 7 : 8)];
    f.name = std::string("f") + std::to_string(r.below(1000));
    if (f.kind == 'E') { f.dt = ne::DATA_TYPE::ULONG; f.len = 4; f.conv = "%d"; f.enumId = ENUMIDS[r.below(4)]; }
    if (f.kind == 'T') { f.dt = ne::DATA_TYPE::CHAR; f.len = 1; f.conv = "%s"; f.count = 32; }
    if (f.kind == 'X' || f.kind == 'V') { f.count = 1 + static_cast<uint32_t>(r.below(5)); }
    if (f.kind == 'A')
    {
        f.count = 4; f.dt = ne::DATA_TYPE::UNKNOWN; f.len = 0; f.conv = "";
        for (size_t i = 1 + r.below(3); i; --i) { f.sub.push_back(MakeField(r, depth + 1)); }
    }
    return f;
}
MDef MakeMsg(uint32_t id, size_t name, uint64_t seed, const std::string& fam)
{
    Rng r(seed * 977 + id * 31 + name);
    MDef m;
    m.id = id; m.name = MSGNAMES[name % 10]; m.oid = "m" + std::to_string(seed); m.desc = "d" + std::to_string(seed); m.family = fam;
    for (size_t i = 1 + r.below(2); i; --i)
    {
        m.latest = static_cast<uint32_t>(r.below(1u << 31));
        auto& v = m.crc[m.latest];
        for (size_t k = 1 + r.below(4); k; --k) { v.push_back(MakeField(r, 0)); }
    }
    return m;
}
EDef MakeEnum(size_t name, size_t id, uint64_t seed)
{
    Rng r(seed * 131 + name * 7 + id);
    EDef e;
    e.name = ENUMNAMES[name % 5]; e.oid = ENUMIDS[id % 4];
    uint32_t v = 0;
    for (size_t i = 1 + r.below(4); i; --i) { v += 1 + static_cast<uint32_t>(r.below(9)); e.vals.push_back({v, "V" + std::to_string(seed) + "_" + std::to_string(v)}); }
    return e;
}

// ---------------------------------------------------------------- real objects from the model
std::vector<ne::BaseField::Ptr> Fields(const std::vector<F>& v, const std::string& fam)
{
    std::vector<ne::BaseField::Ptr> out;
    for (const auto& f : v)
    {
        ne::BaseField::Ptr p;
        switch (f.kind)
        {
        case 'S': p = std::make_shared<ne::BaseField>(f.name, ne::FIELD_TYPE::SIMPLE, f.conv, f.dt); break;
        case 'E': p = std::make_shared<ne::EnumField>(f.name, ne::FIELD_TYPE::ENUM, f.conv, f.dt, f.enumId); break;
        case 'X': p = std::make_shared<ne::ArrayField>(f.name, ne::FIELD_TYPE::FIXED_LENGTH_ARRAY, f.conv, f.dt, f.count); break;
        case 'V': p = std::make_shared<ne::ArrayField>(f.name, ne::FIELD_TYPE::VARIABLE_LENGTH_ARRAY, f.conv, f.dt, f.count); break;
        case 'T': p = std::make_shared<ne::ArrayField>(f.name, ne::FIELD_TYPE::STRING, f.conv, f.dt, f.count); break;
        default:
            p = std::make_shared<ne::FieldArrayField>(f.name, ne::FIELD_TYPE::FIELD_ARRAY, f.conv, f.dt, f.count, ne::BuildFieldInfo(Fields(f.sub, fam), fam));
        }
        out.push_back(p);
    }
    return out;
}
ne::MessageDefinition::ConstPtr Real(const MDef& m)
{
    std::unordered_map<uint32_t, ne::FieldInfo::ConstPtr> fi;
    for (const auto& [c, v] : m.crc) { fi[c] = ne::BuildFieldInfo(Fields(v, m.family), m.family); }
    return std::make_shared<ne::MessageDefinition>(m.oid, m.id, m.name, m.desc, m.latest, std::move(fi));
}
ne::EnumDefinition::ConstPtr Real(const EDef& e)
{
    std::vector<ne::EnumDataType> v;
    for (const auto& [val, n] : e.vals) { v.push_back(ne::EnumDataType{val, n, "desc " + n}); }
    return std::make_shared<ne::EnumDefinition>(e.oid, e.name, std::move(v));
}

// ---------------------------------------------------------------- signatures
std::string EnumSig(const EDef& e)
{
    std::string s = e.name + "/" + e.oid + "{";
    for (const auto& [v, n] : e.vals) { s += std::to_string(v) + "=" + n + ","; }
    return s + "}";
}
std::string EnumSig(const ne::EnumDefinition& e)
{
    std::string s = e.name + "/" + e._id + "{";
    for (const auto& v : e.enumerators) { s += std::to_string(v.value) + "=" + v.name + ","; }
    return s + "}";
}
// db decides which enumeration each enum field must be bound to; nullptr: bindings are left out
void Sig(const std::vector<F>& v, const std::string& fam, const MDb* db, std::string& out)
{
    size_t off = 0, var = 0;
    for (const auto& f : v)
    {
        size_t idx;
        if (f.kind == 'S' || f.kind == 'E' || f.kind == 'X')
        {
            off += Pad(fam, f.len, off);
            idx = off;
            off += f.len * (f.kind == 'X' ? f.count : 1);
        }
        else { idx = var++; }
        out += f.kind + f.name + ":" + f.conv + "@" + std::to_string(idx);
        if (f.kind == 'E')
        {
            const EDef* e = db ? db->EnumById(f.enumId) : nullptr;
            out += "->" + f.enumId + (e && !db->loose.count(f.enumId) ? EnumSig(*e) : "?");
        }
        if (f.kind == 'A') { out += "["; Sig(f.sub, fam, db, out); out += "]"; }
        out += ";";
    }
    out += "#" + std::to_string(off) + "," + std::to_string(var);
}
void Sig(const ne::FieldInfo& fi, const MDb* db, std::string& out, bool bindings)
{
    for (const auto& f : fi.messageOrderedFields)
    {
        char k = '?';
        switch (f->type)
        {
        case ne::FIELD_TYPE::SIMPLE: k = 'S'; break;
        case ne::FIELD_TYPE::ENUM: k = 'E'; break;
        case ne::FIELD_TYPE::FIXED_LENGTH_ARRAY: k = 'X'; break;
        case ne::FIELD_TYPE::VARIABLE_LENGTH_ARRAY: k = 'V'; break;
        case ne::FIELD_TYPE::STRING: k = 'T'; break;
        case ne::FIELD_TYPE::FIELD_ARRAY: k = 'A'; break;
        default: break;
        }
        out += k + f->name + ":" + f->conversion + "@" + std::to_string(f->index);
        if (k == 'E')
        {
            const auto* e = dynamic_cast<const ne::EnumField*>(f.get());
            const bool bound = bindings && db && db->EnumById(e->enumId) && !db->loose.count(e->enumId);
            out += "->" + e->enumId;
            if (bindings && !db) { out += e->enumDef ? EnumSig(*e->enumDef) : "null"; }
            else { out += bound ? (e->enumDef ? EnumSig(*e->enumDef) : "null") : "?"; }
        }
        if (k == 'A')
        {
            out += "[";
            Sig(*dynamic_cast<const ne::FieldArrayField*>(f.get())->fieldInfo, db, out, bindings);
            out += "]";
        }
        out += ";";
    }
    out += "#" + std::to_string(fi.fixedFieldBytes) + "," + std::to_string(fi.varFieldCount);
}
std::string Sig(const MDef& m, const MDb* db)
{
    std::string s = m.oid + "|" + std::to_string(m.id) + "|" + m.name + "|" + m.desc + "|" + std::to_string(m.latest);
    for (const auto& [c, v] : m.crc) { s += "|" + std::to_string(c) + ":"; Sig(v, m.family, db, s); }
    return s;
}
std::string Sig(const ne::MessageDefinition& m, const MDb* db, bool bindings)
{
    std::string s = m._id + "|" + std::to_string(m.logID) + "|" + m.name + "|" + m.description + "|" + std::to_string(m.latestMessageCrc);
    std::map<uint32_t, const ne::FieldInfo*> o;
    for (const auto& [c, v] : m.fieldInfo) { o[c] = v.get(); }
    for (const auto& [c, v] : o) { s += "|" + std::to_string(c) + ":"; Sig(*v, db, s, bindings); }
    return s;
}

// ---------------------------------------------------------------- scenario
struct Node
{
    std::unique_ptr<ne::MessageDatabase> db;
    MDb m;
};
struct Held
{
    ne::MessageDefinition::ConstPtr p;
    std::string sig;
};
struct HeldEnum
{
    ne::EnumDefinition::ConstPtr p;
    std::string sig;
};

class DbHistory : public Scenario
{
  public:
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        const bool dup = r.chance(1, 3), copies = r.chance(2, 3), enums = r.chance(3, 4);
        t.cfg["probe"] = r.chance(1, 2);
        auto ctor = [&] { t.add("ctor", {static_cast<int64_t>(r.below(6)), static_cast<int64_t>(r.below(5)), static_cast<int64_t>(r.below(100000)), dup, static_cast<int64_t>(r.below(4))}); };
        ctor();
        const size_t n = 4 + r.below(thorough ? 60 : 30);
        for (size_t i = 0; i < n; ++i)
        {
            const int64_t db = static_cast<int64_t>(r.below(4)), other = static_cast<int64_t>(r.below(4));
            const int64_t seed = static_cast<int64_t>(r.below(100000));
            if (oom && r.chance(1, 3)) { t.add("arm", {static_cast<int64_t>(r.below(r.pick<uint64_t>({4, 20, 80, 400, 1500}))), r.pick<int64_t>({1, 1, 1, 2, 1000000})}); }
            switch (r.weighted({30, 10, 16, enums ? 14u : 0u, enums ? 8u : 0u, copies ? 8u : 0u, copies ? 8u : 0u, copies ? 6u : 0u, 3, 5, copies ? 4u : 0u, 8, 3, copies ? 3u : 0u}))
            {
            case 0: t.add("msg", {db, r.range(1, 6), static_cast<int64_t>(r.below(dup ? 4 : 10)), seed}); break;
            case 1: t.add("batch", {db, r.range(0, 5), seed, static_cast<int64_t>(r.below(2))}); break;
            case 2: t.add("rm", {db, r.range(1, 7)}); break;
            case 3: t.add("enum", {db, static_cast<int64_t>(r.below(5)), static_cast<int64_t>(r.below(4)), seed}); break;
            case 4: t.add("rmenum", {db, static_cast<int64_t>(r.below(5))}); break;
            case 5: t.add("merge", {db, other}); break;
            case 6: t.add("copy", {db}); break;
            case 7: t.add("share", {db, other}); break;
            case 8: ctor(); break;
            case 9: t.add("fam", {db, static_cast<int64_t>(r.below(3))}); break;
            case 10: t.add("drop", {db}); break;
            case 11: t.add("hold", {db, r.range(1, 6)}); break;
            case 12: t.add("alias", {db, static_cast<int64_t>(r.below(2))}); break;
            case 13: t.add("assign", {db, other}); break;
            }
        }
    }

    static void Append(MDb& m, const MDef& d)
    {
        m.msgs.erase(std::remove_if(m.msgs.begin(), m.msgs.end(), [&](const MDef& x) { return x.id == d.id; }), m.msgs.end());
        m.msgs.push_back(d);
        m.msgs.back().family = m.family;
        m.loose.clear();
    }
    static void AppendEnum(MDb& m, const EDef& e)
    {
        m.enums.erase(std::remove_if(m.enums.begin(), m.enums.end(), [&](const EDef& x) { return x.name == e.name; }), m.enums.end());
        m.enums.push_back(e);
        m.loose.clear();
    }

    void Verify(const Node& n, Ctx& c, bool ids)
    {
        const auto& db = *n.db;
        for (uint32_t id = 1; id <= 7; ++id)
        {
            const MDef* want = nullptr;
            for (const auto& m : n.m.msgs) { if (m.id == id) { want = &m; } }
            auto got = Lib([&] { return db.GetMsgDef(static_cast<int32_t>(id)); });
            Compare(want, got.get(), n.m, c, (oom ? "C23:by-id" : "C15:by-id"), "id " + std::to_string(id));
        }
        for (const char* name : MSGNAMES)
        {
            const MDef* want = nullptr;
            for (const auto& m : n.m.msgs) { if (m.name == name) { want = &m; } }
            auto got = Lib([&] { return db.GetMsgDef(std::string_view(name)); });
            Compare(want, got.get(), n.m, c, (oom ? "C23:by-name" : "C15:by-name"), name);
        }
        for (const char* name : ENUMNAMES)
        {
            const EDef* want = nullptr;
            for (const auto& e : n.m.enums) { if (e.name == name) { want = &e; } }
            auto got = Lib([&] { return db.GetEnumDefName(name); });
            CompareEnum(want, got.get(), c, (oom ? "C23:enum-by-name" : "C15:enum-by-name"), name);
        }
        for (const char* id : ENUMIDS)
        {
            auto got = Lib([&] { return db.GetEnumDefId(id); });
            CompareEnum(n.m.EnumById(id), got.get(), c, (oom ? "C23:enum-by-id" : "C15:enum-by-id"), id);
        }
        if (!ids) { return; }
        static const char* const SUF[] = {"", "A", "B", "R", "A_1", "_3", "B_2", "R_1", "A_12", "_31", "X", "_X"};
        for (const char* name : MSGNAMES)
        {
            for (const char* suf : SUF)
            {
                const std::string full = std::string(name) + suf;
                const uint32_t want = NameToId(n.m, full);
                const uint32_t got = Lib([&] { return db.MsgNameToMsgId(full); });
                c.check(got == want, (oom ? "C23:name-to-id" : "C15:name-to-id"), "MsgNameToMsgId(" + full + ") is " + std::to_string(got) + ", expected " + std::to_string(want));
            }
        }
        c.check(Lib([&] { return db.MsgNameToMsgId(""); }) == 0, (oom ? "C23:name-to-id" : "C15:name-to-id"), "the empty name has an id");
        for (uint32_t id = 1; id <= 7; ++id)
        {
            const MDef* want = nullptr;
            for (const auto& m : n.m.msgs) { if (m.id == id) { want = &m; } }
            for (uint32_t fmt = 0; fmt < 3; ++fmt)
            {
                for (uint32_t sib : {0u, 2u})
                {
                    const std::string name = (want ? want->name : std::string("UNKNOWN")) + (fmt == 0 ? "B" : fmt == 1 ? "A" : "") + (sib ? "_2" : "");
                    const std::string got = Lib([&] { return db.MsgIdToMsgName(id | sib << 16 | fmt << 21); });
                    c.check(got == name, (oom ? "C23:id-to-name" : "C15:id-to-name"), "MsgIdToMsgName of id " + std::to_string(id) + " is " + got + ", expected " + name);
                }
            }
        }
    }
    static const MDef* ByName(const MDb& m, const std::string& n)
    {
        const MDef* r = nullptr;
        for (const auto& d : m.msgs) { if (d.name == n) { r = &d; } }
        return r;
    }
    // the documented name scheme: NAME[A|B|R][_source]
    static uint32_t NameToId(const MDb& m, std::string n)
    {
        uint32_t sib = 0;
        const auto us = n.rfind('_');
        if (us != std::string::npos && us + 1 < n.size() && n.find_first_not_of("0123456789", us + 1) == std::string::npos)
        {
            sib = static_cast<uint32_t>(std::stoul(n.substr(us + 1)));
            n.resize(us);
        }
        const MDef* d = ByName(m, n);
        if (d) { return (d->id & 0xFFFF) | sib << 16 | 2u << 21; }
        uint32_t fmt = 2, resp = 0;
        switch (n.back())
        {
        case 'R': resp = 1; fmt = 1; n.pop_back(); break;
        case 'A': fmt = 1; n.pop_back(); break;
        case 'B': fmt = 0; n.pop_back(); break;
        default: break;
        }
        d = n.empty() ? nullptr : ByName(m, n);
        return d ? (d->id & 0xFFFF) | sib << 16 | fmt << 21 | resp << 23 : 0;
    }
    void Compare(const MDef* want, const ne::MessageDefinition* got, const MDb& m, Ctx& c, const char* cls, const std::string& what)
    {
        c.check((want == nullptr) == (got == nullptr), cls, "looking up " + what + (want ? " finds nothing although it is defined" : " finds " + (got ? got->name : "") + " although it is not defined"));
        if (!want) { return; }
        const std::string a = Sig(*want, &m), b = Sig(*got, &m, true);
        c.check(a == b, cls, "looking up " + what + " finds another definition:\n  expected " + a + "\n  found    " + b);
    }
    void CompareEnum(const EDef* want, const ne::EnumDefinition* got, Ctx& c, const char* cls, const std::string& what)
    {
        c.check((want == nullptr) == (got == nullptr), cls, "looking up enumeration " + what + (want ? " finds nothing although it is defined" : " finds a removed definition"));
        if (!want) { return; }
        const std::string a = EnumSig(*want), b = EnumSig(*got);
        c.check(a == b, cls, "looking up enumeration " + what + " finds another definition: expected " + a + ", found " + b);
        for (const auto& [v, nm] : want->vals)
        {
            auto i = got->valueName.find(v);
            auto j = got->nameValue.find(nm);
            c.check(i != got->valueName.end() && i->second == nm && j != got->nameValue.end() && j->second == v, cls, "the value maps of enumeration " + what + " disagree with its enumerators");
        }
    }

    // whatever a failed operation left behind, a lookup must find what was asked for or nothing
    void Sane(const Node& n, Ctx& c)
    {
        const auto& db = *n.db;
        for (uint32_t id = 1; id <= 7; ++id)
        {
            auto got = Lib([&] { return db.GetMsgDef(static_cast<int32_t>(id)); });
            c.check(!got || got->logID == id, "C23:database", "after an operation that ran out of memory, looking up id " + std::to_string(id) + " finds another message");
        }
        for (const char* name : MSGNAMES)
        {
            auto got = Lib([&] { return db.GetMsgDef(std::string_view(name)); });
            c.check(!got || got->name == name, "C23:database", std::string("after an operation that ran out of memory, looking up ") + name + " finds another message");
        }
        for (const char* name : ENUMNAMES)
        {
            auto got = Lib([&] { return db.GetEnumDefName(name); });
            c.check(!got || got->name == name, "C23:database", std::string("after an operation that ran out of memory, looking up ") + name + " finds another enumeration");
        }
        for (const char* id : ENUMIDS)
        {
            auto got = Lib([&] { return db.GetEnumDefId(id); });
            c.check(!got || got->_id == id, "C23:database", std::string("after an operation that ran out of memory, looking up ") + id + " finds another enumeration");
        }
    }
    bool oom = false;

    void run(const Trace& t, Ctx& c) override
    {
        std::vector<Node> nodes;
        std::vector<Held> held;
        std::vector<HeldEnum> heldEnums;
        bool removed = false, merged = false;
        uint64_t failed = 0;
        auto add = [&](Node n) {
            if (nodes.size() >= 4) { nodes.erase(nodes.begin()); }
            nodes.push_back(std::move(n));
        };
        auto step = [&](const Op& op) {
            Node* n = nodes.empty() ? nullptr : &nodes[static_cast<size_t>(op.at(0)) % nodes.size()];
            if (op.k == "ctor")
            {
                Node x;
                Rng r(static_cast<uint64_t>(op.at(2)));
                std::vector<ne::MessageDefinition::ConstPtr> ms;
                std::vector<ne::EnumDefinition::ConstPtr> es;
                const int64_t fam = op.at(4);
                x.m.family = fam < 3 ? FAMILIES[fam] : "";
                for (int64_t i = 0; i < op.at(0); ++i)
                {
                    const auto id = static_cast<uint32_t>(op.at(3) ? 1 + r.below(4) : 1 + static_cast<uint64_t>(i));
                    x.m.msgs.push_back(MakeMsg(id, op.at(3) ? r.below(3) : static_cast<size_t>(i), r.below(1000), x.m.family));
                    ms.push_back(Real(x.m.msgs.back()));
                }
                for (int64_t i = 0; i < op.at(1); ++i)
                {
                    EDef e = MakeEnum(op.at(3) ? r.below(5) : static_cast<size_t>(i), op.at(3) ? r.below(4) : static_cast<size_t>(i), r.below(1000));
                    if (std::any_of(x.m.enums.begin(), x.m.enums.end(), [&](const EDef& o) { return o.name == e.name; })) { continue; }
                    x.m.enums.push_back(e);
                    es.push_back(Real(e));
                }
                auto meta = std::make_shared<ne::DbMetadata>();
                meta->messageFamily = x.m.family;
                x.db = Lib([&] { return fam < 3 ? std::make_unique<ne::MessageDatabase>(std::move(ms), std::move(es), meta) : std::make_unique<ne::MessageDatabase>(std::move(ms), std::move(es)); });
                add(std::move(x));
            }
            else if (op.k == "msg")
            {
                const MDef d = MakeMsg(static_cast<uint32_t>(op.at(1)), static_cast<size_t>(op.at(2)), static_cast<uint64_t>(op.at(3)), op.at(3) % 2 ? "OEM" : "");
                Lib([&] { n->db->AppendMessages({Real(d)}); });
                Append(n->m, d);
            }
            else if (op.k == "batch")
            {
                Rng r(static_cast<uint64_t>(op.at(2)));
                std::vector<ne::MessageDefinition::ConstPtr> ms;
                std::vector<ne::EnumDefinition::ConstPtr> es;
                for (int64_t i = 0; i < op.at(1); ++i)
                {
                    if (op.at(3)) { const EDef e = MakeEnum(r.below(5), r.below(4), r.below(1000)); es.push_back(Real(e)); AppendEnum(n->m, e); continue; }
                    const MDef d = MakeMsg(1 + static_cast<uint32_t>(r.below(5)), r.below(10), r.below(1000), "");
                    ms.push_back(Real(d));
                    Append(n->m, d);
                }
                n->m.loose.clear();
                if (op.at(3)) { Lib([&] { n->db->AppendEnumerations(es); }); }
                else { Lib([&] { n->db->AppendMessages(ms); }); }
            }
            else if (op.k == "rm")
            {
                const auto id = static_cast<uint32_t>(op.at(1));
                Lib([&] { n->db->RemoveMessage(id); });
                const size_t before = n->m.msgs.size();
                n->m.msgs.erase(std::remove_if(n->m.msgs.begin(), n->m.msgs.end(), [&](const MDef& x) { return x.id == id; }), n->m.msgs.end());
                if (n->m.msgs.size() != before) { removed = true; }
                if (before - n->m.msgs.size() > 1) { c.probe("removed-duplicates"); }
            }
            else if (op.k == "enum")
            {
                const EDef e = MakeEnum(static_cast<size_t>(op.at(1)), static_cast<size_t>(op.at(2)), static_cast<uint64_t>(op.at(3)));
                Lib([&] { n->db->AppendEnumerations({Real(e)}); });
                AppendEnum(n->m, e);
            }
            else if (op.k == "rmenum")
            {
                const std::string name = ENUMNAMES[op.at(1) % 5];
                Lib([&] { n->db->RemoveEnumeration(name); });
                for (auto it = n->m.enums.begin(); it != n->m.enums.end();)
                {
                    if (it->name == name) { n->m.loose.insert(it->oid); it = n->m.enums.erase(it); removed = true; }
                    else { ++it; }
                }
            }
            else if (op.k == "merge")
            {
                Node* o = &nodes[static_cast<size_t>(op.at(1)) % nodes.size()];
                if (o == n) { c.probe("merged-with-itself"); }
                Lib([&] { n->db->Merge(*o->db); });
                const MDb src = o->m;
                for (const auto& e : src.enums) { AppendEnum(n->m, e); }
                for (const auto& m : src.msgs) { Append(n->m, m); }
                n->m.loose.clear();
                merged = true;
            }
            else if (op.k == "alias")
            {
                const MDb src = n->m;
                if (op.at(1)) { Lib([&] { n->db->AppendEnumerations(n->db->EnumDefinitions()); }); for (const auto& e : src.enums) { AppendEnum(n->m, e); } }
                else { Lib([&] { n->db->AppendMessages(n->db->MessageDefinitions()); }); for (const auto& m : src.msgs) { Append(n->m, m); } }
                n->m.loose.clear();
            }
            else if (op.k == "copy")
            {
                Node x;
                x.m = n->m;
                x.db = Lib([&] { return std::make_unique<ne::MessageDatabase>(*n->db); });
                add(std::move(x));
                c.probe("copied");
            }
            else if (op.k == "assign")
            {
                Node* o = &nodes[static_cast<size_t>(op.at(1)) % nodes.size()];
                Lib([&] { *n->db = *o->db; });
                const MDb m = o->m;
                n->m = m;
            }
            else if (op.k == "share")
            {
                // a new database built from one's messages and another's enumerations
                Node* o = &nodes[static_cast<size_t>(op.at(1)) % nodes.size()];
                Node x;
                x.m.msgs = n->m.msgs;
                x.m.enums = o->m.enums;
                x.db = Lib([&] { return std::make_unique<ne::MessageDatabase>(n->db->MessageDefinitions(), o->db->EnumDefinitions()); });
                add(std::move(x));
                c.probe("shared-definitions");
            }
            else if (op.k == "fam")
            {
                const std::string fam = FAMILIES[op.at(1) % 3];
                Lib([&] { n->db->SetMessageFamily(fam); });
                n->m.family = fam;
                const auto msgs = std::move(n->m.msgs);
                n->m.msgs.clear();
                for (const auto& m : msgs) { Append(n->m, m); }
                n->m.loose.clear();
            }
            else if (op.k == "drop")
            {
                if (nodes.size() > 1) { nodes.erase(nodes.begin() + static_cast<long>(static_cast<size_t>(op.at(0)) % nodes.size())); }
            }
            else if (op.k == "hold")
            {
                auto p = Lib([&] { return n->db->GetMsgDef(static_cast<int32_t>(op.at(1))); });
                if (p) { held.push_back({p, Sig(*p, nullptr, true)}); }
                for (const char* name : ENUMNAMES)
                {
                    auto e = n->db->GetEnumDefName(name);
                    if (e) { heldEnums.push_back({e, EnumSig(*e)}); }
                }
            }
        };
        const Op* arm = nullptr;
        for (const auto& op : t.ops)
        {
            ++c.calls;
            if (op.k == "arm")
            {
                arm = &op;
                continue;
            }
            if (nodes.empty() && op.k != "ctor") { continue; }
            // appending a database's own definitions changes their order as it goes: not repeatable
            if (arm && op.k != "alias" && (op.k != "merge" || op.at(0) % static_cast<int64_t>(nodes.size()) != op.at(1) % static_cast<int64_t>(nodes.size())))
            {
                // memory runs out during the operation. It may fail, but trying again must have the effect it always has, and no other
                // database may notice.
                std::vector<MDb> models;
                for (const auto& x : nodes) { models.push_back(x.m); }
                const size_t before = nodes.size();
                sim::g_allocFired = false;
                sim::g_allocFailCount = std::max<int64_t>(1, arm->at(1));
                sim::g_allocFailAt = sim::g_allocCount + arm->at(0);
                bool threw = false;
                try
                {
                    step(op);
                }
                catch (const std::bad_alloc&)
                {
                    threw = true;
                }
                sim::g_allocFailAt = -1;
                arm = nullptr;
                if (sim::g_allocFired)
                {
                    c.fault("allocation_failed");
                    ++failed;
                    c.ev("failed", {threw});
                }
                c.check(!threw || sim::g_allocFired, "C23:invented", op.k + " reports that memory ran out, but it did not");
                if (threw)
                {
                    if (nodes.size() != before) { throw std::logic_error("the failed operation added a database"); }
                    for (size_t i = 0; i < before; ++i) { nodes[i].m = models[i]; }
                    const size_t target = static_cast<size_t>(op.at(0)) % std::max<size_t>(1, before);
                    for (size_t i = 0; i < before; ++i)
                    {
                        if (i != target) { Verify(nodes[i], c, t.get("probe") != 0); }
                        else { Sane(nodes[i], c); }
                    }
                    step(op);
                }
            }
            else
            {
                step(op);
                arm = nullptr;
            }
            const bool all = c.calls % 4 == 0 || &op == &t.ops.back() || op.k == "merge" || op.k == "fam" || op.k == "assign";
            for (size_t i = 0; i < nodes.size(); ++i)
            {
                const auto& x = nodes[i];
                if (!all && i + 1 != nodes.size() && i != static_cast<size_t>(op.at(0)) % nodes.size()) { continue; }
                Verify(x, c, t.get("probe") != 0);
                auto meta = x.db->GetDbMetadata();
                const std::string fam = meta ? meta->messageFamily : "";
                c.check(fam == x.m.family, (oom ? "C23:family" : "C15:family"), "after " + op.k + ", database " + std::to_string(i) + " has message family '" + fam + "', expected '" + x.m.family + "'");
                c.ev(op.k, {static_cast<int64_t>(i), static_cast<int64_t>(x.db->MessageDefinitions().size()), static_cast<int64_t>(x.db->EnumDefinitions().size())});
            }
            for (const auto& h : held)
            {
                c.check(Sig(*h.p, nullptr, true) == h.sig, (oom ? "C23:held" : "C15:held"), "a definition looked up earlier changed after " + op.k + ":\n  was " + h.sig + "\n  is  " + Sig(*h.p, nullptr, true));
            }
            for (const auto& h : heldEnums) { c.check(EnumSig(*h.p) == h.sig, (oom ? "C23:held" : "C15:held"), "an enumeration looked up earlier changed after " + op.k); }
        }
        c.nontrivial += oom ? failed > 0 : removed || merged;
    }
};
struct DbOutOfMemory : DbHistory
{
    DbOutOfMemory() { oom = true; }
};
SIM_SCENARIO("C15", DbHistory)
SIM_SCENARIO("C23-db", DbOutOfMemory)
} // namespace
