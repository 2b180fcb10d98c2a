#include "msgdb.hpp"

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <set>

#include "novatel_edie/decoders/common/json_db_reader.hpp"
#include "wire.hpp"

namespace mdb {
const char* DtName(DT t)
{
    static const char* n[] = {"BOOL", "CHAR", "UCHAR", "SHORT", "USHORT", "INT", "UINT", "LONG", "ULONG", "LONGLONG", "ULONGLONG", "FLOAT", "DOUBLE", "HEXBYTE", "SATELLITEID"};
    return n[static_cast<int>(t)];
}
size_t DtLen(DT t)
{
    static const size_t n[] = {4, 1, 1, 2, 2, 4, 4, 4, 4, 8, 8, 4, 8, 1, 4};
    return n[static_cast<int>(t)];
}
std::string Fld::letter() const
{
    std::string o;
    for (char c : conv)
    {
        if (std::isalpha(static_cast<unsigned char>(c))) { o += c; }
    }
    return o;
}
int Fld::width() const
{
    size_t i = 1;
    if (i < conv.size() && std::isdigit(static_cast<unsigned char>(conv[i]))) { return std::atoi(conv.c_str() + i); }
    return -1;
}
int Fld::precision() const
{
    const size_t p = conv.find('.');
    if (p == std::string::npos || p + 1 >= conv.size() || !std::isdigit(static_cast<unsigned char>(conv[p + 1]))) { return -1; }
    return std::atoi(conv.c_str() + p + 1);
}
bool HasVar(const Flds& f)
{
    return std::any_of(f.begin(), f.end(), [](const Fld& x) { return x.k == K::VAR || x.k == K::STRING || x.k == K::FARR; });
}
static bool IsFloat(DT t) { return t == DT::FLOAT || t == DT::DOUBLE; }

Fld Simple(const std::string& name, DT dt, const std::string& conv)
{
    Fld f;
    f.k = K::SIMPLE;
    f.name = name;
    f.dt = dt;
    f.len = static_cast<unsigned>(DtLen(dt));
    f.conv = conv;
    return f;
}

// ------------------------------------------------------------------ JSON database text
static std::string Q(const std::string& s) { return "\"" + s + "\""; }
static std::string FieldsJson(const Db& db, const Flds& fs)
{
    std::string o = "[";
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const Fld& f = fs[i];
        static const char* kn[] = {"SIMPLE", "ENUM", "FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY", "STRING", "FIELD_ARRAY"};
        if (i) { o += ","; }
        o += "{\"type\":" + Q(kn[static_cast<int>(f.k)]) + ",\"name\":" + Q(f.name) + ",\"description\":null,\"conversionString\":" +
             (f.conv.empty() ? std::string("null") : Q(f.conv)) + ",\"dataType\":{\"name\":" + Q(f.k == K::FARR ? "UNKNOWN" : DtName(f.dt)) +
             ",\"length\":" + std::to_string(f.len) + ",\"description\":null}";
        if (f.k == K::ENUM) { o += ",\"enumID\":" + Q(db.enums[static_cast<size_t>(f.enm)].id); }
        if (f.k == K::FIXED || f.k == K::VAR || f.k == K::STRING || f.k == K::FARR) { o += ",\"arrayLength\":" + std::to_string(f.alen); }
        if ((f.k == K::VAR || f.k == K::FARR) && f.lfs != 4) { o += ",\"arrayLengthFieldSize\":" + std::to_string(f.lfs); }
        if (!f.ref.empty()) { o += ",\"arrayLengthRef\":" + Q(f.ref); }
        if (f.k == K::FARR) { o += ",\"fields\":" + FieldsJson(db, f.sub); }
        o += "}";
    }
    return o + "]";
}
std::string Db::Json() const
{
    std::string o = "{\"meta\":{\"subset\":\"sim\",\"version\":\"1.0.0\",\"messageFamily\":\"OEM\"},\"enums\":[";
    for (size_t i = 0; i < enums.size(); ++i)
    {
        const Enm& e = enums[i];
        o += std::string(i ? "," : "") + "{\"_id\":" + Q(e.id) + ",\"name\":" + Q(e.name) + ",\"enumerators\":[";
        for (size_t j = 0; j < e.v.size(); ++j)
        {
            o += std::string(j ? "," : "") + "{\"value\":" + std::to_string(e.v[j].first) + ",\"name\":" + Q(e.v[j].second) + ",\"description\":" +
                 (j < e.desc.size() ? Q(e.desc[j]) : std::string("null")) + "}";
        }
        o += "]}";
    }
    o += "],\"messages\":[";
    for (size_t i = 0; i < msgs.size(); ++i)
    {
        const Msg& m = msgs[i];
        o += std::string(i ? "," : "") + "{\"_id\":" + Q("m" + std::to_string(m.id)) + ",\"messageID\":" + std::to_string(m.id) + ",\"name\":" + Q(m.name) +
             ",\"description\":null,\"latestMsgDefCrc\":" + Q(std::to_string(m.latestCrc())) + ",\"fields\":{";
        for (size_t j = 0; j < m.defs.size(); ++j)
        {
            const auto& d = m.defs[m.id % 2 ? m.defs.size() - 1 - j : j]; // the latest need not be the last
            o += std::string(j ? "," : "") + Q(std::to_string(d.first)) + ":" + FieldsJson(*this, d.second);
        }
        o += "}}";
    }
    return o + "]}";
}
const Msg* Db::byId(uint16_t id) const
{
    for (auto& m : msgs)
    {
        if (m.id == id) { return &m; }
    }
    return nullptr;
}
const Msg* Db::byName(const std::string& n) const
{
    for (auto& m : msgs)
    {
        if (m.name == n) { return &m; }
    }
    return nullptr;
}
namespace {
bool g_shareLoads = false;
std::map<std::string, std::shared_ptr<novatel::edie::MessageDatabase>>& Shared()
{
    static auto* m = new std::map<std::string, std::shared_ptr<novatel::edie::MessageDatabase>>();
    return *m;
}
} // namespace
void ShareLoads(bool on)
{
    g_shareLoads = on;
    Shared().clear();
}
std::shared_ptr<novatel::edie::MessageDatabase> Load(const Db& db)
{
    // only the parsing itself is library code
    struct Aside
    {
        int s = sim::g_inLib;
        Aside() { sim::g_inLib = 0; }
        ~Aside() { sim::g_inLib = s; }
    };
    std::string json;
    {
        Aside a;
        json = db.Json();
        if (g_shareLoads)
        {
            auto it = Shared().find(json);
            if (it != Shared().end()) { return it->second; }
        }
    }
    auto d = novatel::edie::ParseJsonDb(json);
    Aside a;
    return g_shareLoads ? Shared().emplace(json, d).first->second : d;
}

// ------------------------------------------------------------------ random definitions
namespace {
struct TC
{
    DT t;
    const char* c;
};
const TC kScalar[] = {{DT::BOOL, "%d"},        {DT::UCHAR, "%UB"},     {DT::UCHAR, "%u"},      {DT::UCHAR, "%x"},     {DT::UCHAR, "%X"},     {DT::UCHAR, "%c"},
                      {DT::CHAR, "%B"},        {DT::HEXBYTE, "%XB"},   {DT::SHORT, "%hd"},     {DT::USHORT, "%hu"},   {DT::USHORT, "%x"},    {DT::USHORT, "%u"},
                      {DT::INT, "%d"},         {DT::LONG, "%d"},       {DT::LONG, "%ld"},      {DT::UINT, "%u"},      {DT::ULONG, "%lu"},    {DT::ULONG, "%u"},
                      {DT::ULONG, "%x"},       {DT::ULONG, "%lx"},     {DT::ULONG, "%X"},      {DT::ULONG, "%T"},     {DT::ULONG, "%m"},     {DT::ULONG, "%c"},
                      {DT::LONGLONG, "%lld"},  {DT::ULONGLONG, "%llu"}, {DT::ULONGLONG, "%llx"}, {DT::FLOAT, "%f"},   {DT::FLOAT, "%.9f"},   {DT::FLOAT, "%e"},
                      {DT::FLOAT, "%.9e"},     {DT::FLOAT, "%g"},      {DT::FLOAT, "%4.9k"},   {DT::FLOAT, "%.9k"},   {DT::DOUBLE, "%lf"},   {DT::DOUBLE, "%.12lf"},
                      {DT::DOUBLE, "%f"},      {DT::DOUBLE, "%le"},    {DT::DOUBLE, "%.17le"}, {DT::DOUBLE, "%.17lg"}, {DT::DOUBLE, "%5.17lk"}, {DT::DOUBLE, "%.17lk"},
                      {DT::DOUBLE, "%13.17lk"}, {DT::DOUBLE, "%20.17lk"}, {DT::DOUBLE, "%.17e"}, {DT::SATELLITEID, "%id"}, {DT::UINT, "%lx"},  {DT::ULONGLONG, "%u"}, {DT::ULONGLONG, "%x"}, {DT::USHORT, "%X"}};
const TC kElem[] = {{DT::UCHAR, "%UB"},    {DT::UCHAR, "%u"},       {DT::HEXBYTE, "%XB"},  {DT::SHORT, "%hd"},   {DT::USHORT, "%hu"},   {DT::LONG, "%ld"},
                    {DT::ULONG, "%lu"},    {DT::ULONG, "%x"},       {DT::ULONGLONG, "%llu"}, {DT::FLOAT, "%.9e"}, {DT::FLOAT, "%f"},     {DT::DOUBLE, "%.12lf"},
                    {DT::DOUBLE, "%.17le"}, {DT::DOUBLE, "%5.17lk"}, {DT::LONGLONG, "%lld"}, {DT::SATELLITEID, "%id"}, {DT::CHAR, "%B"},   {DT::ULONG, "%T"},
                    {DT::ULONG, "%m"},     {DT::INT, "%d"},
                    {DT::USHORT, "%u"},    {DT::USHORT, "%x"},      {DT::ULONGLONG, "%u"}, {DT::ULONGLONG, "%x"}, {DT::ULONGLONG, "%llx"}, {DT::DOUBLE, "%f"},
                    {DT::UINT, "%u"},      {DT::UINT, "%lx"},       {DT::LONG, "%d"},      {DT::FLOAT, "%.9k"},   {DT::DOUBLE, "%.17e"},   {DT::FLOAT, "%.9g"}};

Fld RandomFld(sim::Rng& r, const Db& db, int depth, bool allowVar, unsigned flags, int n)
{
    Fld f;
    f.name = "f" + std::to_string(n);
    const size_t kind = allowVar ? r.weighted({10, 3, 3, 3, 2, static_cast<unsigned>(depth > 0 ? 4 : 0)}) : r.weighted({10, 3, 3});
    f.k = static_cast<K>(kind);
    switch (f.k)
    {
    case K::SIMPLE: {
        const TC& t = kScalar[r.below(sizeof kScalar / sizeof *kScalar)];
        f.dt = t.t;
        f.conv = t.c;
        f.len = static_cast<unsigned>(DtLen(f.dt));
        break;
    }
    case K::ENUM:
        f.dt = r.pick({DT::ULONG, DT::ULONG, DT::UCHAR, DT::USHORT});
        f.len = static_cast<unsigned>(DtLen(f.dt));
        f.conv = "%d";
        f.enm = static_cast<int>(4 + r.below(db.enums.size() - 4));
        break;
    case K::FIXED:
    case K::VAR: {
        const size_t w = r.weighted({8, 3, 2, 2});
        f.alen = static_cast<unsigned>(r.range(1, 9));
        if (w == 0)
        {
            const TC& t = kElem[r.below(sizeof kElem / sizeof *kElem)];
            f.dt = t.t;
            f.conv = t.c;
        }
        else if (w == 1)
        {
            f.dt = r.chance(2, 3) ? DT::CHAR : DT::UCHAR;
            f.conv = "%s";
            f.alen = static_cast<unsigned>(r.range(2, 20));
        }
        else if (w == 2)
        {
            f.dt = r.chance(1, 3) ? DT::CHAR : DT::UCHAR;
            f.conv = "%P";
            f.alen = static_cast<unsigned>(r.range(1, 20));
        }
        else
        {
            f.dt = r.chance(1, 4) ? DT::UCHAR : DT::HEXBYTE;
            f.conv = "%Z";
            f.alen = static_cast<unsigned>(r.range(1, 20));
        }
        f.len = static_cast<unsigned>(DtLen(f.dt));
        if (f.k == K::VAR)
        {
            f.lfs = r.pick({4u, 4u, 4u, 2u, 1u});
            if (f.conv == "%s" && f.alen < 4) { f.alen = 4; }
        }
        break;
    }
    case K::STRING:
        f.dt = DT::CHAR;
        f.len = 1;
        f.conv = "%s";
        f.alen = static_cast<unsigned>(r.range(8, 40));
        break;
    case K::FARR: {
        const int m = static_cast<int>(r.range(1, 5));
        const bool var = r.chance(2, 5);
        for (int i = 0; i < m; ++i) { f.sub.push_back(RandomFld(r, db, depth - 1, var, flags, i)); }
        f.alen = static_cast<unsigned>(r.range(1, 8));
        f.lfs = r.pick({4u, 4u, 4u, 4u, 2u});
        unsigned sum = 0;
        for (auto& s : f.sub) { sum += s.k == K::FIXED ? s.len * s.alen : s.len; }
        f.len = std::max(4u, sum);
        if (flags & ODD_LENGTHS)
        {
            if (r.chance(1, 6)) { f.len = 256; }
            else if (r.chance(1, 6)) { f.len = 0; }
        }
        f.conv = "";
        break;
    }
    }
    return f;
}

Flds RandomFlds(sim::Rng& r, const Db& db, unsigned flags, int shape)
{
    Flds f;
    const int n = static_cast<int>(r.range(1, 7));
    for (int i = 0; i < n; ++i) { f.push_back(RandomFld(r, db, 2, shape != 0, flags, i)); }
    if (shape == 2)
    {
        // a count carried by another field
        Fld c = Simple("cnt", r.pick({DT::ULONG, DT::USHORT, DT::UCHAR}), "%u");
        Fld a = RandomFld(r, db, 0, false, flags, 90);
        a.k = K::VAR;
        a.dt = r.pick({DT::ULONG, DT::UCHAR});
        a.len = static_cast<unsigned>(DtLen(a.dt));
        a.conv = "%u";
        a.alen = 12;
        a.lfs = 4;
        a.enm = -1;
        a.name = "arr";
        a.ref = "cnt";
        f.insert(f.begin() + static_cast<long>(r.below(f.size() + 1)), c);
        f.push_back(a);
    }
    return f;
}
} // namespace

std::shared_ptr<const Db> Make(uint64_t seed, unsigned flags)
{
    static std::map<std::pair<uint64_t, unsigned>, std::shared_ptr<const Db>> cache;
    auto it = cache.find({seed, flags});
    if (it != cache.end()) { return it->second; }
    if (cache.size() > 256) { cache.clear(); }
    sim::Rng r(seed * 7919 + 13);
    auto db = std::make_shared<Db>();
    auto en = [&](const char* name, std::vector<std::pair<uint32_t, std::string>> v, std::vector<std::string> d = {}) {
        Enm e;
        e.id = "e" + std::to_string(db->enums.size());
        e.name = name;
        e.v = std::move(v);
        e.desc = std::move(d);
        db->enums.push_back(e);
    };
    en("Responses", {{1, "OK"}, {2, "REQUESTED_LOG_DOES_NOT_EXIST"}, {3, "NOT_ENOUGH_RESOURCES"}, {5, "INVALID_MESSAGE_ID"}, {14, "INVALID_MESSAGE_FIELD"}},
       {"OK", "Requested log does not exist", "Not enough resources in system", "Invalid Message ID", "Invalid Message. Field = %d"});
    en("Commands", {{4, "FIX"}, {7, "LOGX"}});
    en("PortAddress", {{0, "NO_PORTS"}, {32, "COM1"}, {64, "COM2"}, {96, "COM3"}, {160, "THISPORT"}, {168, "FILE"}, {192, "ALL_PORTS"}, {230, "SPECIAL"}, {255, "USB3_MAX"}});
    en("GPSTimeStatus", {{20, "UNKNOWN"}, {60, "APPROXIMATE"}, {80, "COARSEADJUSTING"}, {100, "COARSE"}, {120, "COARSESTEERING"}, {130, "FREEWHEELING"}, {140, "FINEADJUSTING"}, {160, "FINE"}, {180, "FINESTEERING"}, {200, "SATTIME"}});
    const int ne = static_cast<int>(r.range(1, 3));
    for (int i = 0; i < ne; ++i)
    {
        Enm e;
        e.id = "e" + std::to_string(db->enums.size());
        e.name = "Enum" + std::to_string(i);
        const int n = static_cast<int>(r.range(1, 8));
        std::set<uint32_t> used;
        for (int j = 0; j < n; ++j)
        {
            const uint32_t v = static_cast<uint32_t>(r.below(120));
            if (!used.insert(v).second) { continue; }
            e.v.emplace_back(v, "EN" + std::to_string(i) + "_" + std::string(1, static_cast<char>('A' + j)) + (r.chance(1, 3) ? "_LONG_NAME" : ""));
        }
        db->enums.push_back(e);
    }
    std::set<uint16_t> ids{0, 43, 128, 140, 1273, 1734, 2050, 2474, 2537};
    std::set<std::string> names;
    const int nm = static_cast<int>(r.range(5, 10));
    for (int i = 0; i < nm; ++i)
    {
        Msg m;
        do { m.id = static_cast<uint16_t>(r.chance(1, 4) ? r.range(1, 60000) : r.range(1, 2000)); } while (!ids.insert(m.id).second);
        do
        {
            m.name.clear();
            const int n = static_cast<int>(r.range(3, 14));
            for (int j = 0; j < n; ++j) { m.name += static_cast<char>('C' + r.below(j == n - 1 ? 15 : 24)); }
        } while (m.name.rfind("OK", 0) == 0 || m.name.rfind("ERROR", 0) == 0 || !names.insert(m.name).second);
        const int nd = r.chance(1, 3) ? 2 : 1;
        for (int d = 0; d < nd; ++d)
        {
            const int shape = i == 0 ? 0 : i == 1 ? 2 : static_cast<int>(r.weighted({3, 5, 1}));
            uint32_t crc;
            do { crc = static_cast<uint32_t>(r.range(1, 65535)); } while (d == 1 && crc == m.defs[0].first);
            m.defs.emplace_back(crc, RandomFlds(r, *db, flags, shape));
        }
        db->msgs.push_back(m);
    }
    if (flags & RANGE_MSGS)
    {
        Msg m;
        m.id = 43;
        m.name = "RANGE";
        Fld a;
        a.k = K::FARR;
        a.name = "obs";
        a.len = 44;
        a.alen = 325;
        a.sub = {Simple("prn", DT::USHORT, "%hu"), Simple("freq", DT::USHORT, "%hu"), Simple("psr", DT::DOUBLE, "%.3lf"), Simple("psrstd", DT::FLOAT, "%.3f"),
                 Simple("adr", DT::DOUBLE, "%.6lf"), Simple("adrstd", DT::FLOAT, "%.3f"), Simple("dopp", DT::FLOAT, "%.3f"), Simple("cno", DT::FLOAT, "%.1f"),
                 Simple("locktime", DT::FLOAT, "%.3f"), Simple("status", DT::ULONG, "%lx")};
        m.defs.emplace_back(4099u, Flds{a});
        db->msgs.push_back(m);
        const std::pair<int, const char*> cmp[] = {{140, "RANGECMP"}, {1273, "RANGECMP2"}, {1734, "RANGECMP3"}, {2050, "RANGECMP4"}, {2537, "RANGECMP5"}};
        for (auto& c : cmp)
        {
            Msg x;
            x.id = static_cast<uint16_t>(c.first);
            x.name = c.second;
            Fld b;
            b.k = K::VAR;
            b.name = "data";
            b.dt = DT::HEXBYTE;
            b.len = 1;
            b.conv = "%Z";
            b.alen = 20000;
            if (c.first == 140)
            {
                Fld row;
                row.k = K::FIXED;
                row.name = "obs";
                row.dt = DT::HEXBYTE;
                row.len = 1;
                row.conv = "%Z";
                row.alen = 24;
                b.k = K::FARR;
                b.len = 24;
                b.conv.clear();
                b.alen = 325;
                b.sub = {row};
            }
            x.defs.emplace_back(4100u, Flds{b});
            db->msgs.push_back(x);
        }
    }
    if (flags & RXCONFIG_MSG) // the last two messages
    {
        for (int i = 0; i < 2; ++i)
        {
            Msg m;
            m.id = i ? 2474 : 128;
            m.name = i ? "RXCONFIGUSER" : "RXCONFIG";
            Fld b;
            b.k = K::VAR;
            b.name = "embedded_message";
            b.dt = DT::UCHAR;
            b.len = 1;
            b.conv = "%R";
            b.alen = 32768;
            m.defs.emplace_back(4101u + static_cast<uint32_t>(i), Flds{b});
            db->msgs.push_back(m);
        }
    }
    cache[{seed, flags}] = db;
    return db;
}

// ------------------------------------------------------------------ values
static uint64_t FloatBits(DT t, double v)
{
    if (t == DT::FLOAT)
    {
        float f = static_cast<float>(v);
        uint32_t b;
        std::memcpy(&b, &f, 4);
        return b;
    }
    uint64_t b;
    std::memcpy(&b, &v, 8);
    return b;
}
static double FloatVal(DT t, uint64_t bits)
{
    if (t == DT::FLOAT)
    {
        const auto b = static_cast<uint32_t>(bits);
        float f;
        std::memcpy(&f, &b, 4);
        return f;
    }
    double d;
    std::memcpy(&d, &bits, 8);
    return d;
}
static uint64_t Mask(size_t len) { return len >= 8 ? ~0ull : (1ull << (8 * len)) - 1; }
static bool Scientific(const Fld& f, double v)
{
    const std::string l = f.letter();
    if (l == "f" || l == "lf") { return false; }
    if (l == "e" || l == "le") { return true; }
    const int w = f.width();
    if (w < 0) { return true; }
    const double a = std::fabs(v);
    const double mn = f.dt == DT::FLOAT ? 1.17549435e-38 : 2.2250738585072014e-308;
    return a >= mn && (a > std::pow(10.0, w) || a < std::pow(10.0, -w));
}
// characters which no text format but JSON can carry
static uint64_t AnyChar(sim::Rng& r)
{
    const uint64_t some[] = {'"', '\\', '*', '\r', '\n', '\t', '\b', '/', '<', ' '};
    return r.chance(3, 4) ? some[r.below(sizeof some / sizeof *some)] : 1 + r.below(127);
}
static uint64_t RandomElem(const Db& db, const Fld& f, sim::Rng& r, bool text)
{
    const std::string l = f.letter();
    if (f.k == K::ENUM)
    {
        const Enm& e = db.enums[static_cast<size_t>(f.enm)];
        return e.v[r.below(e.v.size())].first;
    }
    if (IsFloat(f.dt))
    {
        const int p = f.precision();
        const bool full = f.dt == DT::FLOAT ? p >= 9 : p >= 17;
        const bool alwaysSci = l == "e" || l == "le" || ((l != "f" && l != "lf") && f.width() < 0);
        if (r.chance(1, 12)) { return FloatBits(f.dt, 0.0); }
        if (full && alwaysSci && r.chance(2, 3))
        {
            // any finite value
            if (f.dt == DT::FLOAT)
            {
                uint32_t b = static_cast<uint32_t>(r.next());
                if ((b & 0x7F800000u) == 0x7F800000u || (b & 0x7F800000u) == 0) { b = (b & 0x807FFFFFu) | 0x3F800000u; }
                return b;
            }
            uint64_t b = r.next();
            if ((b & 0x7FF0000000000000ull) == 0x7FF0000000000000ull || (b & 0x7FF0000000000000ull) == 0) { b = (b & 0x800FFFFFFFFFFFFFull) | 0x3FF0000000000000ull; }
            return b;
        }
        if (full && f.width() >= 0 && f.dt == DT::DOUBLE && r.chance(1, 2))
        {
            const double v = std::ldexp(1.0, static_cast<int>(r.range(-12, 50)));
            return FloatBits(f.dt, r.chance(1, 2) ? -v : v);
        }
        const int64_t lim = p < 0 || p < 9 ? 7999 : 799999;
        return FloatBits(f.dt, static_cast<double>(r.range(-lim, lim)) / 8.0);
    }
    if (f.dt == DT::BOOL) { return r.below(2); }
    if (l == "c")
    {
        // a printable character that no text format gives a meaning of its own
        static const char ok[] = "abcdefgXYZ0123456789_-+.:/";
        if (!text && r.chance(1, 3)) { return AnyChar(r); }
        return static_cast<uint64_t>(static_cast<unsigned char>(ok[r.below(sizeof ok - 1)]));
    }
    if (l == "T") { return r.below(604800001); }
    if (l == "m")
    {
        const Msg& m = db.msgs[r.below(db.msgs.size())];
        const uint32_t sib = r.chance(1, 3) ? static_cast<uint32_t>(r.below(32)) : 0;
        const uint32_t fmt = static_cast<uint32_t>(r.below(3));
        return m.id | (sib << 16) | (fmt << 21);
    }
    if (l == "id")
    {
        const uint32_t prn = static_cast<uint32_t>(r.chance(1, 4) ? r.below(65536) : r.below(64));
        const int16_t fq = r.chance(1, 2) ? 0 : static_cast<int16_t>(r.chance(1, 8) ? r.range(-32767, 32767) : r.range(-7, 6));
        return prn | (static_cast<uint32_t>(static_cast<uint16_t>(fq)) << 16);
    }
    uint64_t v = r.next() & Mask(f.len);
    switch (r.below(6))
    {
    case 0: v = 0; break;
    case 1: v = Mask(f.len); break;
    case 2: v &= 0x7F; break;
    case 3: v = Mask(f.len) ^ (Mask(f.len) >> 1); break; // most negative
    default: break;
    }
    return v;
}
static Cell RandomCell(const Db& db, const Fld& f, sim::Rng& r, const BodyOpt& o, unsigned forced)
{
    Cell c;
    const std::string l = f.letter();
    auto count = [&]() -> unsigned {
        if (forced != ~0u) { return forced; }
        if (o.bigChance && r.chance(1, o.bigChance)) { return f.alen; }
        return static_cast<unsigned>(r.below(std::min(o.maxCount, f.alen) + 1));
    };
    static const char str[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+.:/ ,;#$%<[]{}()=!?\\";
    auto strChar = [&]() -> uint64_t { return !o.text && r.chance(1, 3) ? AnyChar(r) : static_cast<uint64_t>(static_cast<unsigned char>(str[r.below(sizeof str - 1)])); };
    switch (f.k)
    {
    case K::SIMPLE:
    case K::ENUM: c.e.push_back(RandomElem(db, f, r, o.text)); break;
    case K::FIXED:
    case K::VAR: {
        unsigned n = f.k == K::FIXED ? f.alen : count();
        if (f.k == K::VAR && (l == "s" || l == "P" || l == "Z") && forced == ~0u) { n = static_cast<unsigned>(r.below(f.alen + 1)); }
        if (l == "s")
        {
            const unsigned used = f.k == K::VAR ? n : static_cast<unsigned>(r.below(n + 1));
            for (unsigned i = 0; i < n; ++i) { c.e.push_back(i < used ? (r.chance(1, 24) ? '"' : strChar()) : 0); }
        }
        else if (l == "P")
        {
            for (unsigned i = 0; i < n; ++i)
            {
                uint64_t b = r.chance(1, 2) ? r.below(256) : static_cast<uint64_t>(r.range(33, 126));
                if (b == '*') { b = 0x0C; }
                if (i == 0 && f.k == K::FIXED && (b == ' ' || b == '<')) { b = 0x7F; } // taken for indentation in abbreviated ASCII
                c.e.push_back(b);
            }
        }
        else
        {
            for (unsigned i = 0; i < n; ++i) { c.e.push_back(RandomElem(db, f, r, o.text)); }
        }
        break;
    }
    case K::STRING: {
        const unsigned n = static_cast<unsigned>(r.below(std::min(f.alen, 30u)));
        for (unsigned i = 0; i < n; ++i) { c.s += static_cast<char>(strChar()); }
        break;
    }
    case K::FARR: {
        const unsigned n = count();
        for (unsigned i = 0; i < n; ++i) { c.rows.push_back(RandomBody(db, f.sub, r, o)); }
        break;
    }
    }
    return c;
}
Row RandomBody(const Db& db, const Flds& fs, sim::Rng& r, const BodyOpt& o)
{
    Row row;
    std::map<std::string, unsigned> cnt;
    for (auto& f : fs)
    {
        if (!f.ref.empty()) { cnt[f.ref] = static_cast<unsigned>(r.below(std::min(std::min(o.maxCount, f.alen), 200u) + 1)); }
    }
    for (auto& f : fs)
    {
        auto it = cnt.find(f.name);
        if (it != cnt.end() && f.k == K::SIMPLE)
        {
            Cell c;
            c.e.push_back(it->second);
            row.push_back(c);
            continue;
        }
        row.push_back(RandomCell(db, f, r, o, f.ref.empty() ? ~0u : cnt[f.ref]));
    }
    return row;
}

Hdr RandomHdr(const Db& db, const Msg& m, sim::Rng& r)
{
    Hdr h;
    h.id = m.id;
    h.type = r.chance(1, 3) ? static_cast<uint8_t>(r.below(32)) : 0;
    h.port = static_cast<uint8_t>(db.enums[2].v[r.below(db.enums[2].v.size())].first);
    h.seq = static_cast<uint16_t>(r.chance(1, 2) ? 0 : r.below(65536));
    h.idle = static_cast<uint8_t>(r.below(201));
    h.tstat = static_cast<uint8_t>(db.enums[3].v[r.below(db.enums[3].v.size())].first);
    h.week = static_cast<uint16_t>(r.chance(1, 6) ? r.below(65536) : r.range(1000, 2400));
    h.ms = static_cast<uint32_t>(r.chance(1, 10) ? r.next() : r.below(604800000));
    h.rxstat = static_cast<uint32_t>(r.next());
    h.crc = static_cast<uint16_t>(r.chance(1, 4) ? r.below(65536) : m.latestCrc());
    h.swver = static_cast<uint16_t>(r.below(65536));
    return h;
}

// ------------------------------------------------------------------ binary
static void Align(std::string& o, size_t base, size_t len)
{
    const size_t a = std::min<size_t>(4, len);
    if (a == 0) { return; }
    while ((o.size() - base) % a) { o += '\0'; }
}
static void Raw(std::string& o, uint64_t v, size_t len)
{
    for (size_t i = 0; i < len; ++i) { o += static_cast<char>(v >> (8 * i)); }
}
static size_t FlatSize(const Fld& f);
static size_t SubSize(const Flds& fs)
{
    // bytes the definition accounts for, without padding, and without nested field arrays
    size_t n = 0;
    for (auto& f : fs)
    {
        if (f.k == K::SIMPLE || f.k == K::ENUM) { n += f.len; }
        else if (f.k != K::FARR) { n += static_cast<size_t>(f.len) * f.alen; }
    }
    return n;
}
static size_t FlatSize(const Fld& f) { return f.k == K::FARR ? SubSize(f.sub) * f.alen : static_cast<size_t>(f.len) * f.alen; }
static void EncFields(const Flds& fs, const Row& r, std::string& o, bool flat)
{
    const size_t base = o.size();
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const Fld& f = fs[i];
        const Cell& c = r[i];
        Align(o, base, f.len);
        auto count = [&](size_t n) {
            if (f.ref.empty())
            {
                Align(o, base, f.lfs);
                Raw(o, n, f.lfs);
            }
        };
        size_t start = 0;
        switch (f.k)
        {
        case K::SIMPLE:
        case K::ENUM:
        case K::FIXED:
            for (auto v : c.e) { Raw(o, v, f.len); }
            break;
        case K::VAR:
            count(c.e.size());
            start = o.size();
            for (auto v : c.e) { Raw(o, v, f.len); }
            if (flat) { o.resize(std::max(o.size(), start + FlatSize(f)), '\0'); }
            break;
        case K::STRING:
            start = o.size();
            o += c.s;
            if (flat) { o.resize(std::max(o.size(), start + FlatSize(f)), '\0'); }
            o += '\0';
            Align(o, base, 4);
            break;
        case K::FARR: {
            count(c.rows.size());
            start = o.size();
            const bool var = HasVar(f.sub);
            for (auto& row : c.rows)
            {
                if (var) { Align(o, base, f.len); }
                EncFields(f.sub, row, o, flat);
            }
            if (flat) { o.resize(std::max(o.size(), start + FlatSize(f)), '\0'); }
            break;
        }
        }
    }
}
std::string EncBin(const Flds& f, const Row& r)
{
    std::string o;
    EncFields(f, r, o, false);
    return o;
}
std::string EncFlat(const Flds& f, const Row& r)
{
    std::string o;
    EncFields(f, r, o, true);
    return o;
}

// ------------------------------------------------------------------ text
static std::string Fmtf(const char* f, ...)
{
    char b[512];
    va_list ap;
    va_start(ap, f);
    const int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return std::string(b, static_cast<size_t>(std::min<int>(n, sizeof b - 1)));
}
std::string PackedName(const Db& db, uint32_t v)
{
    const Msg* m = db.byId(static_cast<uint16_t>(v));
    const uint32_t sib = (v >> 16) & 0x1F, fmt = (v >> 21) & 3, rsp = (v >> 23) & 1;
    std::string n = m ? m->name : "UNKNOWN";
    if (rsp) { n += "R"; }
    else if (fmt == 0) { n += "B"; }
    else if (fmt == 1) { n += "A"; }
    if (sib) { n += "_" + std::to_string(sib); }
    return n;
}
static int64_t SignExt(uint64_t v, size_t len)
{
    if (len >= 8) { return static_cast<int64_t>(v); }
    const uint64_t s = 1ull << (8 * len - 1);
    return static_cast<int64_t>((v ^ s) - s);
}
static std::string Floating(const Fld& f, uint64_t bits)
{
    const double v = FloatVal(f.dt, bits);
    const int p = f.precision() < 0 ? 6 : f.precision();
    return Scientific(f, v) ? Fmtf("%.*e", p, v) : Fmtf("%.*f", p, v);
}
static std::string SatId(uint64_t v)
{
    const int16_t fq = static_cast<int16_t>(v >> 16);
    std::string o = std::to_string(v & 0xFFFF);
    if (fq > 0) { o += "+" + std::to_string(fq); }
    else if (fq < 0) { o += std::to_string(fq); }
    return o;
}
static std::string EnumText(const Db& db, const Fld& f, uint64_t v)
{
    const std::string* n = db.enums[static_cast<size_t>(f.enm)].find(static_cast<uint32_t>(v));
    return n ? *n : "UNKNOWN";
}
static std::string Escaped(uint64_t v)
{
    if (v == '\\') { return "\\\\"; }
    if (v > 31 && v < 127) { return std::string(1, static_cast<char>(v)); }
    return Fmtf("\\x%02x", static_cast<unsigned>(v));
}
static std::string JQ(const std::string& s)
{
    std::string o = "\"";
    for (const char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; }
        if (static_cast<unsigned char>(ch) < 0x20) { o += Fmtf("\\u%04x", static_cast<unsigned>(ch)); }
        else { o += ch; }
    }
    return o + "\"";
}
static std::string Value(const Db& db, const Fld& f, uint64_t v, bool json)
{
    const std::string l = f.letter();
    if (IsFloat(f.dt)) { return Floating(f, v); }
    if (f.dt == DT::BOOL) { return json ? (v ? "true" : "false") : (v ? "TRUE" : "FALSE"); }
    if (l == "T") { return Fmtf("%.3f", static_cast<double>(v) / 1000.0); }
    if (l == "m") { return json ? Q(PackedName(db, static_cast<uint32_t>(v))) : PackedName(db, static_cast<uint32_t>(v)); }
    if (l == "id") { return json ? Q(SatId(v)) : SatId(v); }
    if (l == "c") { return json ? JQ(std::string(1, static_cast<char>(v))) : std::string(1, static_cast<char>(v)); }
    if (!json)
    {
        if (l == "P") { return Escaped(v); }
        if (l == "s") { return std::string(1, static_cast<char>(v)); }
        if (l == "XB" || f.dt == DT::HEXBYTE) { return Fmtf("%02x", static_cast<unsigned>(v)); }
        if (l == "x" || l == "X") { return Fmtf("%0*llx", static_cast<int>(2 * f.len), static_cast<unsigned long long>(v)); }
        if (l == "lx") { return Fmtf("%08llx", static_cast<unsigned long long>(v)); }
        if (l == "llx") { return Fmtf("%016llx", static_cast<unsigned long long>(v)); }
        if (l == "Z") { return Fmtf("%02x", static_cast<unsigned>(v)); }
    }
    switch (f.dt)
    {
    case DT::CHAR:
    case DT::SHORT:
    case DT::INT:
    case DT::LONG:
    case DT::LONGLONG: return std::to_string(SignExt(v, f.len));
    default: return std::to_string(v);
    }
}
static std::string Terminated(const Cell& c)
{
    std::string o;
    for (auto v : c.e)
    {
        if (v == 0) { break; }
        o += static_cast<char>(v);
    }
    return o;
}
static void Text(const Db& db, const Flds& fs, const Row& r, std::string& o, char sep, unsigned indents)
{
    const bool abb = indents > 0;
    if (abb) { o += "<" + std::string(indents * 5, ' '); }
    bool nl = false;
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const Fld& f = fs[i];
        const Cell& c = r[i];
        if (nl)
        {
            o += "\r\n<" + std::string(indents * 5, ' ');
            nl = false;
        }
        switch (f.k)
        {
        case K::ENUM: o += EnumText(db, f, c.e[0]) + sep; break;
        case K::SIMPLE: o += Value(db, f, c.e[0], false) + sep; break;
        case K::STRING: o += Q(c.s) + sep; break;
        case K::FIXED:
        case K::VAR:
            if (f.k == K::VAR) { o += std::to_string(c.e.size()) + sep; }
            if (f.isStr())
            {
                o += '"';
                for (const char ch : Terminated(c)) { o += ch == '\\' ? std::string("\\\\") : ch == '"' ? std::string("\\x22") : std::string(1, ch); }
                o += std::string("\"") + sep;
            }
            else
            {
                for (auto v : c.e)
                {
                    o += Value(db, f, v, false);
                    if (f.isCsv()) { o += sep; }
                }
                if (!f.isCsv()) { o += sep; }
            }
            break;
        case K::FARR:
            o += std::to_string(c.rows.size()) + sep;
            if (abb && c.rows.empty()) { o += "\r\n<" + std::string((indents + 1) * 5, ' '); }
            for (auto& row : c.rows)
            {
                if (abb) { o += "\r\n"; }
                Text(db, f.sub, row, o, sep, abb ? indents + 1 : 0);
            }
            nl = abb;
            break;
        }
    }
}
std::string EncAscii(const Db& db, const Flds& f, const Row& r)
{
    std::string o;
    Text(db, f, r, o, ',', 0);
    return o;
}
std::string EncAbbrev(const Db& db, const Flds& f, const Row& r, unsigned indents)
{
    std::string o;
    Text(db, f, r, o, ' ', indents);
    return o;
}
std::string EncJson(const Db& db, const Flds& fs, const Row& r)
{
    std::string o = "{";
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const Fld& f = fs[i];
        const Cell& c = r[i];
        if (i) { o += ","; }
        o += Q(f.name) + ": ";
        switch (f.k)
        {
        case K::ENUM: o += Q(EnumText(db, f, c.e[0])); break;
        case K::SIMPLE: o += Value(db, f, c.e[0], true); break;
        case K::STRING: o += JQ(c.s); break;
        case K::FIXED:
        case K::VAR:
            if (f.isStr()) { o += JQ(Terminated(c)); }
            else
            {
                o += "[";
                for (size_t j = 0; j < c.e.size(); ++j) { o += std::string(j ? "," : "") + Value(db, f, c.e[j], true); }
                o += "]";
            }
            break;
        case K::FARR:
            o += "[";
            for (size_t j = 0; j < c.rows.size(); ++j) { o += std::string(j ? "," : "") + EncJson(db, f.sub, c.rows[j]); }
            o += "]";
            break;
        }
    }
    return o + "}";
}

// ------------------------------------------------------------------ whole messages
const char* FormName(int f)
{
    static const char* n[] = {"binary", "short-binary", "ascii", "short-ascii", "abbrev", "short-abbrev", "json", "flattened"};
    return n[f];
}
static std::string NameSib(const Msg& m, const Hdr& h, const char* suffix)
{
    std::string n = m.name + suffix;
    if (h.type & 0x1F) { n += "_" + std::to_string(h.type & 0x1F); }
    return n;
}
std::string HdrJson(const Db& db, const Msg& m, const Hdr& h, bool shortForm)
{
    const std::string n = NameSib(m, h, "");
    auto port = db.enums[2].find(h.port);
    auto ts = db.enums[3].find(h.tstat);
    if (shortForm) { return Fmtf(R"({"message": "%s","id": %u,"week": %u,"seconds": %.3f})", n.c_str(), h.id, h.week, h.ms / 1000.0); }
    return Fmtf(R"({"message": "%s","id": %u,"port": "%s","sequence_num": %u,"percent_idle_time": %.1f,"time_status": "%s","week": %u,"seconds": %.3f,"receiver_status": %u,"HEADER_reserved1": %u,"receiver_sw_version": %u})",
                n.c_str(), h.id, port ? port->c_str() : "UNKNOWN", h.seq, h.idle * 0.5, ts ? ts->c_str() : "UNKNOWN", h.week, h.ms / 1000.0, h.rxstat, h.crc, h.swver);
}
std::string HdrText(const Db& db, const Msg& m, const Hdr& h, int form)
{
    auto port = db.enums[2].find(h.port);
    auto ts = db.enums[3].find(h.tstat);
    const char* pn = port ? port->c_str() : "UNKNOWN";
    const char* tn = ts ? ts->c_str() : "UNKNOWN";
    switch (form)
    {
    case F_ASC: return Fmtf("%s,%s,%u,%.1f,%s,%u,%.3f,%08x,%04x,%u;", NameSib(m, h, (h.type & 0x80) ? "R" : "A").c_str(), pn, h.seq, h.idle * 0.5, tn, h.week, h.ms / 1000.0, h.rxstat, h.crc, h.swver);
    case F_SASC: return Fmtf("%s,%u,%.3f;", NameSib(m, h, "A").c_str(), h.week, h.ms / 1000.0);
    case F_ABB: return Fmtf("<%s %s %u %.1f %s %u %.3f %08x %04x %u\r\n", NameSib(m, h, "").c_str(), pn, h.seq, h.idle * 0.5, tn, h.week, h.ms / 1000.0, h.rxstat, h.crc, h.swver);
    case F_SABB: return Fmtf("<%s %u %.3f\r\n", NameSib(m, h, "").c_str(), h.week, h.ms / 1000.0);
    default: return {};
    }
}
std::string Message(const Db& db, const Msg& m, const Flds& f, const Hdr& h, const Row& r, int form)
{
    switch (form)
    {
    case F_BIN:
    case F_FLAT: return wire::Binary(form == F_BIN ? EncBin(f, r) : EncFlat(f, r), h.id, h.week, h.ms, h.type, h.port, h.seq, h.idle, h.tstat, h.rxstat, h.crc, h.swver);
    case F_SBIN: return wire::BinaryShort(EncBin(f, r), h.id, h.week, h.ms);
    case F_ASC:
    case F_SASC: {
        std::string b = EncAscii(db, f, r);
        if (!b.empty()) { b.pop_back(); }
        return form == F_ASC ? wire::Ascii(HdrText(db, m, h, form) + b) : wire::AsciiShort(HdrText(db, m, h, form) + b);
    }
    case F_ABB:
    case F_SABB: {
        std::string t = HdrText(db, m, h, form) + EncAbbrev(db, f, r);
        t.pop_back();
        return t + "\r\n";
    }
    case F_JSON: return "{\"header\": " + HdrJson(db, m, h, false) + ",\"body\": " + EncJson(db, f, r) + "}";
    }
    return {};
}
} // namespace mdb
