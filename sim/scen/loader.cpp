// C16: definition files read from faulty storage, several at once, while the loader's own threads run in any order and
// memory or threads may be refused; against an independent interpretation of the file.
#include "../sched.hpp"
#include "codec.hpp"
#include "traffic.hpp"

#include "novatel_edie/decoders/common/json_db_reader.hpp"

#include <simdjson.h>

namespace {
using sim::Ctx;
using sim::Lib;
using sim::Op;
using sim::Rng;
using sim::Trace;
using simdjson::dom::element_type;
using simdjson::dom::Node;
namespace ne = novatel::edie;

// ---------------------------------------------------------------- JSON text of a tree
std::string Quote(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; }
        if (ch < 0x20)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else { o += static_cast<char>(ch); }
    }
    return o + "\"";
}
void Write(const Node& n, std::string& o)
{
    switch (n.type)
    {
    case element_type::OBJECT: {
        o += "{";
        bool first = true;
        for (auto& m : n.o)
        {
            if (!first) { o += ","; }
            first = false;
            o += Quote(m.first) + ":";
            Write(m.second, o);
        }
        o += "}";
        break;
    }
    case element_type::ARRAY: {
        o += "[";
        bool first = true;
        for (auto& m : n.a)
        {
            if (!first) { o += ","; }
            first = false;
            Write(m, o);
        }
        o += "]";
        break;
    }
    case element_type::INT64: o += std::to_string(n.i); break;
    case element_type::UINT64: o += std::to_string(n.u); break;
    case element_type::DOUBLE: {
        char b[40];
        std::snprintf(b, sizeof b, "%.6e", n.d);
        o += b;
        break;
    }
    case element_type::STRING: o += Quote(n.s); break;
    case element_type::BOOL: o += n.b ? "true" : "false"; break;
    default: o += "null"; break;
    }
}
void Walk(Node& n, std::vector<Node*>& all)
{
    all.push_back(&n);
    for (auto& m : n.o) { Walk(m.second, all); }
    for (auto& m : n.a) { Walk(m, all); }
}
bool ParseTree(const std::string& text, Node& root)
{
    simdjson::dom::detail::Parser ps{text.data(), text.data() + text.size()};
    ps.ws();
    if (ps.p >= ps.e || !ps.val(root, 0)) { return false; }
    ps.ws();
    return ps.p == ps.e;
}

// ---------------------------------------------------------------- what a file describes
// A canonical text of the database; the same is made of the real one.
struct Bad
{
    std::string why;
};
struct Model
{
    std::map<std::string, std::string> enumSig; // by id, the last one counts
    bool oem = false;
    bool odd = false; // describes something neither clearly right nor clearly wrong: both outcomes are accepted, nothing is compared

    static const Node* Find(const Node& n, const char* k)
    {
        if (n.type != element_type::OBJECT) { return nullptr; }
        for (auto& m : n.o)
        {
            if (m.first == k) { return &m.second; }
        }
        return nullptr;
    }
    static const Node& Need(const Node& n, const char* k)
    {
        if (const Node* p = Find(n, k)) { return *p; }
        throw Bad{std::string("no ") + k};
    }
    static const std::string& Str(const Node& n)
    {
        if (n.type != element_type::STRING) { throw Bad{"not a string"}; }
        return n.s;
    }
    static std::string StrNull(const Node& n) { return n.type == element_type::NULL_VALUE ? std::string() : Str(n); }
    static uint64_t Num(const Node& n, uint64_t max)
    {
        uint64_t v;
        if (n.type == element_type::UINT64) { v = n.u; }
        else if (n.type == element_type::INT64 && n.i >= 0) { v = static_cast<uint64_t>(n.i); }
        else { throw Bad{"not an unsigned number"}; }
        if (v > max) { throw Bad{"number too large for its place"}; }
        return v;
    }
    uint32_t Crc(const std::string& s)
    {
        if (s.empty() || s.size() > 10 || s.find_first_not_of("0123456789") != std::string::npos) { throw Bad{"not a checksum"}; }
        const uint64_t v = std::stoull(s);
        if (v > 0xffffffffull) { throw Bad{"checksum too large"}; }
        if (std::to_string(v) != s) { odd = true; }
        return static_cast<uint32_t>(v);
    }
    // conversion strings: %[width][.precision]letters
    std::string Conv(const std::string& s)
    {
        size_t i = 0;
        auto digits = [&] {
            std::string d;
            while (i < s.size() && s[i] >= '0' && s[i] <= '9') { d += s[i++]; }
            if ((d.size() > 1 && d[0] == '0') || d.size() > 8) { odd = true; }
            return d;
        };
        if (s.find('\0') != std::string::npos) { odd = true; }
        if (i >= s.size() || s[i] != '%') { throw Bad{"conversion"}; }
        ++i;
        const std::string w = digits();
        if (i < s.size() && s[i] == '.')
        {
            ++i;
            if (i < s.size() && (s[i] < '0' || s[i] > '9')) { odd = true; }
        }
        const std::string p = digits();
        const size_t l = i;
        while (i < s.size() && ((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z'))) { ++i; }
        if (i == l || i != s.size()) { throw Bad{"conversion"}; }
        return s + "/" + (w.empty() ? "-" : w) + "/" + (p.empty() ? "-" : p);
    }
    struct Dt
    {
        std::string name;
        uint64_t len;
        std::string desc;
    };
    Dt DataType(const Node& f)
    {
        static const std::set<std::string> known{"BOOL", "HEXBYTE", "CHAR",     "UCHAR",     "SHORT", "USHORT", "INT",         "UINT",
                                                 "LONG", "ULONG",   "LONGLONG", "ULONGLONG", "FLOAT", "DOUBLE", "SATELLITEID", "UNKNOWN"};
        const Node& d = Need(f, "dataType");
        Dt r;
        r.name = Str(Need(d, "name"));
        if (!known.count(r.name)) { r.name = "UNKNOWN"; }
        r.len = Num(Need(d, "length"), 0xffff);
        r.desc = StrNull(Need(d, "description"));
        return r;
    }
    std::string Fields(const Node& n, uint64_t& total)
    {
        if (n.type != element_type::ARRAY) { throw Bad{"fields"}; }
        uint64_t off = 0, var = 0;
        total = 0;
        std::string o;
        for (auto& f : n.a)
        {
            const std::string type = Str(Need(f, "type"));
            const Dt dt = DataType(f);
            const bool array = type == "FIXED_LENGTH_ARRAY" || type == "VARIABLE_LENGTH_ARRAY" || type == "STRING";
            if (type != "SIMPLE" && type != "ENUM" && type != "FIELD_ARRAY" && !array) { throw Bad{"field type"}; }
            const uint64_t al = oem ? std::min<uint64_t>(4, dt.len) : 0;
            uint64_t index;
            std::string tail;
            uint64_t alen = 0;
            if (type == "ENUM")
            {
                const std::string id = Str(Need(f, "enumID"));
                auto e = enumSig.find(id);
                tail = " enum " + id + "=" + (e == enumSig.end() ? std::string("none") : e->second);
            }
            uint64_t sub = 0;
            if (array || type == "FIELD_ARRAY")
            {
                const Node& a = Need(f, "arrayLength");
                alen = type == "FIELD_ARRAY" && a.type == element_type::NULL_VALUE ? 0 : Num(a, 0xffffffff);
                const Node* s = Find(f, "arrayLengthFieldSize");
                const uint64_t lfs = s ? Num(*s, 255) : 4;
                const Node* ref = Find(f, "arrayLengthRef");
                tail += " array " + std::to_string(alen) + "," + std::to_string(lfs) + "," + (ref ? StrNull(*ref) : std::string());
                if (type == "FIELD_ARRAY")
                {
                    tail += "[" + Fields(Need(f, "fields"), sub) + "]";
                    if (sub && alen > 0xffffffff / sub) { odd = true; }
                    tail += std::to_string(sub * alen);
                }
                else if (dt.len && alen > 0xffffffff / dt.len) { odd = true; }
            }
            if (type == "SIMPLE" || type == "ENUM" || type == "FIXED_LENGTH_ARRAY")
            {
                if (al) { off = (off + al - 1) / al * al; }
                index = off;
                off += dt.len * (type == "FIXED_LENGTH_ARRAY" ? alen : 1);
            }
            else { index = var++; }
            if (type != "FIELD_ARRAY") { total += dt.len * (array ? alen : 1); }
            if (total > 0xffffffff || off > 0xffffffff) { odd = true; }
            const Node* conv = Find(f, "conversionString");
            o += type + " " + Str(Need(f, "name")) + " '" + StrNull(Need(f, "description")) + "' @" + std::to_string(index) + " " + dt.name + ":" + std::to_string(dt.len) + ":" + dt.desc + " " +
                 (conv && conv->type != element_type::NULL_VALUE ? Conv(Str(*conv)) : std::string("-")) + tail + ";";
        }
        return o + "#" + std::to_string(off) + "," + std::to_string(var);
    }
    std::string Db(const Node& root)
    {
        std::string o;
        const Node* meta = Find(root, "meta");
        if (meta)
        {
            auto opt = [&](const char* k, const char* d) {
                const Node* p = Find(*meta, k);
                return p ? Str(*p) : std::string(d);
            };
            const std::string fam = opt("messageFamily", "");
            o += "meta " + opt("subset", "") + "|" + opt("version", "0.0.0") + "|" + fam + "\n";
            oem = fam == "OEM";
        }
        const Node &enums = Need(root, "enums"), &msgs = Need(root, "messages");
        if (enums.type != element_type::ARRAY || msgs.type != element_type::ARRAY) { throw Bad{"not a list"}; }
        for (auto& e : enums.a)
        {
            const Node& vals = Need(e, "enumerators");
            if (vals.type != element_type::ARRAY) { throw Bad{"enumerators"}; }
            std::string s;
            for (auto& v : vals.a)
            {
                s += std::to_string(Num(Need(v, "value"), 0xffffffff)) + "=" + Str(Need(v, "name")) + "=" + StrNull(Need(v, "description")) + ",";
            }
            s = Str(Need(e, "_id")) + "/" + Str(Need(e, "name")) + "{" + s + "}";
            enumSig[Str(Need(e, "_id"))] = s;
            o += "enum " + s + "\n";
        }
        for (auto& m : msgs.a)
        {
            const uint64_t id = Num(Need(m, "messageID"), 0xffffffff);
            o += "msg " + Str(Need(m, "_id")) + " " + std::to_string(id) + " " + Str(Need(m, "name")) + " '" + StrNull(Need(m, "description")) + "' " + std::to_string(Crc(Str(Need(m, "latestMsgDefCrc"))));
            const Node& f = Need(m, "fields");
            if (f.type != element_type::OBJECT) { throw Bad{"fields of a message"}; }
            std::map<uint32_t, std::string> defs;
            for (auto& d : f.o)
            {
                uint64_t total;
                const uint32_t crc = Crc(d.first);
                if (defs.count(crc)) { odd = true; }
                defs[crc] = Fields(d.second, total);
            }
            for (auto& d : defs) { o += " " + std::to_string(d.first) + "(" + d.second + ")"; }
            o += "\n";
        }
        return o;
    }
};
std::string SigOf(const ne::EnumDefinition& e)
{
    std::string s = e._id + "/" + e.name + "{";
    for (auto& v : e.enumerators) { s += std::to_string(v.value) + "=" + v.name + "=" + v.description + ","; }
    return s + "}";
}
std::string SigOf(const ne::FieldInfo& fi)
{
    std::string o;
    for (auto& f : fi.messageOrderedFields)
    {
        std::string tail;
        auto* en = dynamic_cast<const ne::EnumField*>(f.get());
        auto* ar = dynamic_cast<const ne::ArrayField*>(f.get());
        auto* fa = dynamic_cast<const ne::FieldArrayField*>(f.get());
        if (f->type == ne::FIELD_TYPE::ENUM) { tail = en ? " enum " + en->enumId + "=" + (en->enumDef ? SigOf(*en->enumDef) : std::string("none")) : " not an EnumField"; }
        if (ar) { tail += " array " + std::to_string(ar->arrayLength) + "," + std::to_string(ar->arrayLengthFieldSize) + "," + ar->arrayLengthRef; }
        if (fa) { tail += "[" + (fa->fieldInfo ? SigOf(*fa->fieldInfo) : std::string("none")) + "]" + std::to_string(fa->fieldSize); }
        o += std::string(ne::FieldTypeToString(f->type)) + " " + f->name + " '" + f->description + "' @" + std::to_string(f->index) + " " +
             std::string(ne::DataTypeToString(f->dataType.name)) + ":" + std::to_string(f->dataType.length) + ":" + f->dataType.description + " " +
             (f->conversion.empty() ? std::string("-")
                                    : f->conversion + "/" + (f->width ? std::to_string(*f->width) : "-") + "/" + (f->precision ? std::to_string(*f->precision) : "-")) +
             tail + ";";
    }
    return o + "#" + std::to_string(fi.fixedFieldBytes) + "," + std::to_string(fi.varFieldCount);
}
std::string SigOf(const ne::MessageDatabase& db)
{
    std::string o;
    if (auto m = db.GetDbMetadata()) { o += "meta " + m->subset + "|" + m->version + "|" + m->messageFamily + "\n"; }
    for (auto& e : db.EnumDefinitions()) { o += "enum " + (e ? SigOf(*e) : std::string("none")) + "\n"; }
    for (auto& m : db.MessageDefinitions())
    {
        o += "msg " + m->_id + " " + std::to_string(m->logID) + " " + m->name + " '" + m->description + "' " + std::to_string(m->latestMessageCrc);
        std::map<uint32_t, std::string> defs;
        for (auto& d : m->fieldInfo) { defs[d.first] = d.second ? SigOf(*d.second) : std::string("none"); }
        for (auto& d : defs) { o += " " + std::to_string(d.first) + "(" + d.second + ")"; }
        o += "\n";
    }
    return o;
}
std::string Difference(const std::string& a, const std::string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) { ++i; }
    const size_t from = i < 60 ? 0 : i - 60;
    return "described ..." + sim::Printable(a.substr(from, 140)) + "... loaded ..." + sim::Printable(b.substr(from, 140)) + "...";
}

enum Api
{
    BY_FILE,
    BY_TEXT,
    API_N
};
struct File
{
    std::string path, text;
    bool readable = true;
    bool valid = false, odd = false;
    std::string sig, why;
};

struct Loader : sim::Scenario
{
    bool isolated() const override { return true; }
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        const int files = static_cast<int>(r.range(1, 3));
        const int threads = static_cast<int>(r.weighted({3, 3, 1})) + 1;
        t.cfg["n"] = threads;
        t.cfg["db"] = static_cast<int64_t>(r.below(400));
        t.add("msg", cd::RandomNums(r, static_cast<int>(r.below(2)) ? mdb::F_BIN : mdb::F_ASC, {1}));
        const size_t style = r.weighted({2, 4, 3, 2}); // undamaged, structure, bytes, both
        for (int f = 0; f < files; ++f)
        {
            t.add("file", {static_cast<int64_t>(r.below(400)), static_cast<int64_t>(r.next() >> 1), static_cast<int64_t>(r.weighted({4, 3, 2})), static_cast<int64_t>(r.below(4))});
            if (r.chance(1, 3)) { continue; } // a good one beside damaged ones
            if (style & 1)
            {
                for (int64_t i = r.range(1, r.chance(1, 4) ? 6 : 1); i > 0; --i)
                {
                    t.add("dom", {f, static_cast<int64_t>(r.below(100000)), static_cast<int64_t>(r.below(44)), static_cast<int64_t>(r.below(100000))});
                }
            }
            if (style & 2)
            {
                for (int64_t i = r.range(1, r.chance(1, 4) ? 5 : 1); i > 0; --i)
                {
                    t.add("raw", {f, static_cast<int64_t>(r.below(6)), static_cast<int64_t>(r.below(1000000)), static_cast<int64_t>(r.below(256)), static_cast<int64_t>(r.below(64))});
                }
            }
            if (r.chance(1, 12)) { t.add("io", {f, static_cast<int64_t>(r.below(3))}); }
        }
        const int loads = static_cast<int>(r.range(1, thorough ? 8 : 4));
        for (int i = 0; i < loads; ++i)
        {
            t.add("load", {i < threads ? i : static_cast<int64_t>(r.below(static_cast<uint64_t>(threads))), static_cast<int64_t>(r.below(static_cast<uint64_t>(files))), static_cast<int64_t>(r.below(API_N))});
            if (r.chance(1, 3)) { t.add("use", {static_cast<int64_t>(r.below(static_cast<uint64_t>(threads)))}); }
        }
        if (r.chance(1, 5)) { t.cfg["refuse"] = static_cast<int64_t>(r.below(static_cast<uint64_t>(2 * loads))) + 1; }
        if (r.chance(1, 4))
        {
            t.cfg["oom"] = static_cast<int64_t>(r.chance(1, 3) ? r.below(30) : r.below(8000)) + 1;
            t.cfg["oomn"] = r.chance(1, 2) ? 1 : static_cast<int64_t>(r.below(40)) + 1;
        }
        for (int64_t i = r.range(0, 2); i > 0; --i)
        {
            t.add("alone", {static_cast<int64_t>(r.below(static_cast<uint64_t>(files))), static_cast<int64_t>(r.below(API_N)), static_cast<int64_t>(r.chance(1, 3) ? r.below(30) : r.below(5000)), r.chance(1, 2) ? 1 : static_cast<int64_t>(r.below(40)) + 1});
        }
        sim::GenSchedule(r, t, thorough, 30000);
    }

    static void Named(Node& n, std::initializer_list<const char*> keys, std::vector<Node*>& found)
    {
        for (auto& m : n.o)
        {
            for (auto* k : keys)
            {
                if (m.first == k) { found.push_back(&m.second); }
            }
            Named(m.second, keys, found);
        }
        for (auto& m : n.a) { Named(m, keys, found); }
    }
    // another value where one of that kind belongs
    static void MutateValue(Node& root, const Op& o, size_t arg)
    {
        static const char* const conv[] = {"%", "%5", "%5.3", "d", "%5.3lfx1", "%.d", "%99999999999d", "%5.99999999999lf", "%4.2lf", "%lu%lu", "", "%Ld", "% d", "%-5d", "%*d", "%s", "%100000d"};
        static const char* const crc[] = {"-1", "12abc", " 7", "7 ", "0x10", "99999999999", "4294967296", "18446744073709551616", "4294967295", "0", "1", "", "+5", "1e3"};
        static const int64_t numbers[] = {-1, 0, 1, 255, 256, 65535, 65536, 65540, 2147483648ll, 4294967295ll, 4294967296ll, 4294967297ll, 9223372036854775807ll};
        std::vector<Node*> found;
        const int64_t kind = (o.at(2) - 26) % 4;
        if (kind == 0) { Named(root, {"conversionString"}, found); }
        else if (kind == 1) { Named(root, {"latestMsgDefCrc"}, found); }
        else if (kind == 2) { Named(root, {"fields"}, found); }
        else { Named(root, {"messageID", "length", "value", "arrayLength", "arrayLengthFieldSize"}, found); }
        if (found.empty()) { return; }
        Node& n = *found[static_cast<size_t>(o.at(1)) % found.size()];
        if (kind == 2)
        {
            if (!n.o.empty()) { n.o[arg % n.o.size()].first = crc[arg / 7 % std::size(crc)]; }
            return;
        }
        n = Node();
        n.type = kind == 3 ? element_type::INT64 : element_type::STRING;
        n.i = numbers[arg % std::size(numbers)];
        n.s = kind == 0 ? conv[arg % std::size(conv)] : crc[arg % std::size(crc)];
    }
    static void ByKey(Node& root, std::map<std::string, std::vector<std::pair<Node*, size_t>>>& found)
    {
        for (size_t i = 0; i < root.o.size(); ++i)
        {
            found[root.o[i].first].emplace_back(&root, i);
            ByKey(root.o[i].second, found);
        }
        for (auto& m : root.a) { ByKey(m, found); }
    }
    // any kind of member, however rare it is in the file, loses its value
    static void MutateMember(Node& root, const Op& o, size_t arg)
    {
        std::map<std::string, std::vector<std::pair<Node*, size_t>>> found;
        ByKey(root, found);
        if (found.empty()) { return; }
        auto& all = std::next(found.begin(), static_cast<long>(arg % found.size()))->second;
        auto [parent, i] = all[static_cast<size_t>(o.at(1)) % all.size()];
        const size_t how = arg / 61 % 10;
        if (how >= 8)
        {
            parent->o.erase(parent->o.begin() + static_cast<long>(i));
            return;
        }
        static const element_type types[] = {element_type::NULL_VALUE, element_type::INT64, element_type::STRING, element_type::OBJECT, element_type::ARRAY, element_type::BOOL, element_type::DOUBLE};
        Node n;
        n.type = how < 7 ? types[how] : element_type::ARRAY;
        if (how == 7) { n.a.emplace_back(); } // a list of nothing
        parent->o[i].second = n;
    }
    static void MutateTree(Node& root, const Op& o, Ctx& c)
    {
        std::vector<Node*> all;
        Walk(root, all);
        Node& n = *all[static_cast<size_t>(o.at(1)) % all.size()];
        const size_t arg = static_cast<size_t>(o.at(3));
        const Node was = n;
        auto num = [&](int64_t v) {
            n = Node();
            n.type = element_type::INT64;
            n.i = v;
        };
        auto str = [&](const std::string& s) {
            n = Node();
            n.type = element_type::STRING;
            n.s = s;
        };
        c.fault("description_changed");
        if (o.at(2) >= 34) { return MutateMember(root, o, arg); }
        if (o.at(2) >= 26) { return MutateValue(root, o, arg); }
        switch (o.at(2))
        {
        case 0: n = Node(); break; // null
        case 1: num(-1); break;
        case 2: num(static_cast<int64_t>(4294967296ull + arg)); break;
        case 3: num(65536 + static_cast<int64_t>(arg % 4)); break;
        case 4: num(256); break;
        case 5: num(0); break;
        case 6:
            n = Node();
            n.type = element_type::UINT64;
            n.u = 18446744073709551615ull - arg;
            break;
        case 7:
            n = Node();
            n.type = element_type::DOUBLE;
            n.d = 1.5;
            break;
        case 8: str(""); break;
        case 9: {
            static const char* const s[] = {"-1", "12abc", " 7", "0x10", "99999999999", "4294967296", "%", "%d", "%5", "%5.3", "d", "%5.3lfx1", "SIMPLE", "ENUM", "STRING", "FIELD_ARRAY", "FIXED_LENGTH_ARRAY",
                                            "VARIABLE_LENGTH_ARRAY", "BITFIELD", "UNKNOWN", "ULONG", "name", "18446744073709551616", "OEM", "%99999999999d"};
            str(s[arg % std::size(s)]);
            break;
        }
        case 10:
            n = Node();
            n.type = element_type::OBJECT;
            break;
        case 11:
            n = Node();
            n.type = element_type::ARRAY;
            break;
        case 12:
            n = Node();
            n.type = element_type::BOOL;
            n.b = arg & 1;
            break;
        case 13: // a member or element is lost
        case 14:
        case 15:
            if (!n.o.empty()) { n.o.erase(n.o.begin() + static_cast<long>(arg % n.o.size())); }
            else if (!n.a.empty()) { n.a.erase(n.a.begin() + static_cast<long>(arg % n.a.size())); }
            break;
        case 16: // or there twice
            if (!n.o.empty()) { n.o.push_back(n.o[arg % n.o.size()]); }
            else if (!n.a.empty()) { n.a.push_back(n.a[arg % n.a.size()]); }
            break;
        case 17: // a key is renamed
            if (!n.o.empty()) { n.o[arg % n.o.size()].first += (arg & 1) ? "x" : " "; }
            break;
        case 18: // swapped with another node that is not one of its parents or children
        case 19: {
            Node& other = *all[arg % all.size()];
            Node copy = other;
            std::vector<Node*> inner;
            Walk(n, inner);
            if (std::find(inner.begin(), inner.end(), &other) == inner.end())
            {
                std::vector<Node*> inOther;
                Walk(other, inOther);
                if (std::find(inOther.begin(), inOther.end(), &n) == inOther.end())
                {
                    other = was;
                    n = copy;
                }
            }
            break;
        }
        case 20: // order of members or elements
            if (!n.o.empty()) { std::rotate(n.o.begin(), n.o.begin() + static_cast<long>(arg % n.o.size()), n.o.end()); }
            if (!n.a.empty()) { std::rotate(n.a.begin(), n.a.begin() + static_cast<long>(arg % n.a.size()), n.a.end()); }
            break;
        case 21: // another message family, or none
            for (auto& m : root.o)
            {
                if (m.first != "meta") { continue; }
                for (auto& k : m.second.o)
                {
                    if (k.first == "messageFamily") { k.second.s = (arg & 1) ? "" : "ACME"; }
                }
            }
            break;
        case 22:
            if (!root.o.empty() && root.o[0].first == "meta") { root.o.erase(root.o.begin()); }
            break;
        case 23: // something nobody asked for
            if (n.type == element_type::OBJECT)
            {
                n.o.emplace_back("extra", Node());
                n.o.back().second = Node();
            }
            break;
        case 24: // deep nesting
        {
            Node deep = n;
            for (size_t i = 0; i < arg % 40; ++i)
            {
                Node outer;
                outer.type = element_type::ARRAY;
                outer.a.push_back(deep);
                deep = outer;
            }
            n = deep;
            break;
        }
        default: // numbers as strings and the other way round
            if (n.type == element_type::INT64) { str(std::to_string(was.i)); }
            else if (n.type == element_type::STRING) { num(static_cast<int64_t>(arg)); }
            break;
        }
    }
    static void MutateText(std::string& s, const Op& o, Ctx& c)
    {
        if (s.empty()) { return; }
        const size_t at = static_cast<size_t>(o.at(2)) % s.size(), n = std::min(static_cast<size_t>(o.at(4)) + 1, s.size() - at);
        switch (o.at(1))
        {
        case 0:
            s.resize(at);
            c.fault("file_truncated");
            break;
        case 1:
            s[at] = static_cast<char>(s[at] ^ (1 << (o.at(3) % 8)));
            c.fault("file_bit_flip");
            break;
        case 2:
            s[at] = static_cast<char>(o.at(3));
            c.fault("file_byte_replaced");
            break;
        case 3:
            s.erase(at, n);
            c.fault("file_part_lost");
            break;
        case 4:
            s.insert(at, s.substr(at, n));
            c.fault("file_part_twice");
            break;
        default:
            s.replace(at, n, std::string(n, static_cast<char>(o.at(4) & 1 ? 0 : o.at(3))));
            c.fault("file_part_overwritten");
            break;
        }
    }

    void run(const Trace& t, Ctx& c) override
    {
        const size_t n = static_cast<size_t>(std::min<int64_t>(8, std::max<int64_t>(1, t.get("n"))));
        std::vector<File> files;
        for (auto& o : t.ops)
        {
            if (o.k != "file") { continue; }
            // some of the messages of a synthetic database; all enumerations, or only some
            mdb::Db db = *mdb::Make(static_cast<uint64_t>(o.at(0)), 0);
            Rng pick(static_cast<uint64_t>(o.at(1)));
            const size_t keep = o.at(2) == 0 ? 2 : o.at(2) == 1 ? 6 : db.msgs.size();
            while (db.msgs.size() > keep) { db.msgs.erase(db.msgs.begin() + static_cast<long>(pick.below(db.msgs.size()))); }
            File f;
            f.path = "/edie_sim/definitions" + std::to_string(files.size()) + ".json";
            f.text = db.Json();
            Node root;
            ParseTree(f.text, root);
            if (o.at(3) == 0)
            {
                for (auto& m : root.o)
                {
                    while (m.first == "enums" && m.second.a.size() > 2) { m.second.a.erase(m.second.a.begin() + static_cast<long>(pick.below(m.second.a.size()))); }
                }
            }
            bool changed = o.at(3) == 0;
            for (auto& p : t.ops)
            {
                if (p.k == "dom" && static_cast<size_t>(p.at(0)) == files.size())
                {
                    MutateTree(root, p, c);
                    changed = true;
                }
            }
            if (changed)
            {
                f.text.clear();
                Write(root, f.text);
            }
            for (auto& p : t.ops)
            {
                if (p.k == "raw" && static_cast<size_t>(p.at(0)) == files.size()) { MutateText(f.text, p, c); }
                if (p.k == "io" && static_cast<size_t>(p.at(0)) == files.size())
                {
                    f.readable = false;
                    if (p.at(1)) { f.path += "/missing"; }
                    c.fault("file_unreadable");
                }
            }
            Node tree;
            Model m;
            if (ParseTree(f.text, tree))
            {
                try
                {
                    f.sig = m.Db(tree);
                    f.valid = true;
                }
                catch (const Bad& b)
                {
                    f.why = b.why;
                }
                f.odd = m.odd;
            }
            else { f.why = "not JSON"; }
            c.ev("file", {static_cast<int64_t>(f.text.size()), f.valid, f.odd}, f.why);
            c.probe(f.odd ? "file_odd" : f.valid ? "file_valid" : "file_invalid");
            files.push_back(f);
        }
        if (files.empty()) { return; }
        simio::g_load = [&](const std::string& path, std::string& out) {
            for (auto& f : files)
            {
                if (f.path == path && f.readable)
                {
                    out = f.text;
                    return true;
                }
            }
            return false;
        };
        struct Unhook
        {
            ~Unhook() { simio::g_load = nullptr; }
        } unhook;

        // a database and components already in use
        auto old = mdb::Make(static_cast<uint64_t>(t.get("db")), 0);
        std::shared_ptr<ne::MessageDatabase> oldDb = mdb::Load(*old);
        const std::string oldSig = SigOf(*oldDb);
        cd::Made wire;
        for (auto& o : t.ops)
        {
            if (o.k == "msg")
            {
                wire = cd::MakeMsg(*old, o, 0);
                break;
            }
        }
        std::vector<std::unique_ptr<cd::Node>> nodes;
        for (size_t i = 0; i < n; ++i) { nodes.push_back(std::make_unique<cd::Node>(oldDb)); }
        auto use = [&](size_t i) { return Use(*nodes[i], wire); };
        const std::string usual = use(0);

        struct Outcome
        {
            size_t file;
            std::shared_ptr<ne::MessageDatabase> db;
        };
        std::vector<std::vector<Outcome>> got(n);
        sim::ThreadPlan plan = sim::PlanOf(t);
        plan.prefix = "C16:";
        if (t.get("refuse")) { plan.createFailAt = t.get("refuse") - 1; }
        auto load = [&](const File& f, int64_t api, bool strained) -> std::shared_ptr<ne::MessageDatabase> {
            std::string err;
            std::shared_ptr<ne::MessageDatabase> db;
            try
            {
                db = Lib([&] { return api == BY_FILE ? ne::LoadJsonDbFile(f.path) : ne::ParseJsonDb(f.text); });
                c.check(db != nullptr, "C16:nothing", "loading gave no database and no error");
            }
            catch (const ne::JsonDbReaderFailure& e)
            {
                err = e.what();
                c.check(!err.empty() || strained, "C16:silent-failure", "loading failed without a reason");
                err = "failure";
            }
            catch (const std::bad_alloc&)
            {
                c.check(strained && sim::g_allocFired, "C16:undocumented-error", "bad_alloc although memory was there");
                err = "bad_alloc";
            }
            catch (const std::exception& e)
            {
                c.fail("C16:undocumented-error", std::string("loading failed with something else than JsonDbReaderFailure: ") + e.what());
            }
            ++c.calls;
            const bool excuse = strained || (api == BY_FILE && !f.readable) || f.odd;
            c.ev("load", {api, db != nullptr, f.valid}, err);
            if (db)
            {
                c.check(f.readable || api == BY_TEXT, "C16:unread", "a file that could not be read was loaded");
                c.check(f.valid || f.odd, "C16:accepts-damage", "a file that does not describe a database (" + f.why + ") was loaded");
                if (!f.odd)
                {
                    const std::string sig = SigOf(*db);
                    c.check(sig == f.sig, "C16:incomplete", "the database loaded is not the one described: " + Difference(f.sig, sig));
                    Lookups(*db, c);
                }
                c.probe("loaded");
            }
            else
            {
                c.check(!f.valid || excuse, "C16:refuses", "a good file is refused although nothing failed");
                c.probe("refused");
            }
            return db;
        };
        sim::g_allocCount = 0;
        sim::g_allocFailAt = t.get("oom") ? t.get("oom") - 1 : -1;
        sim::g_allocFailCount = std::max<int64_t>(1, t.get("oomn"));
        std::vector<std::function<void()>> bodies;
        for (size_t i = 0; i < n; ++i)
        {
            bodies.push_back([&, i] {
                for (auto& o : t.ops)
                {
                    if (o.k == "load" && static_cast<size_t>(o.at(0)) % n == i)
                    {
                        const size_t k = static_cast<size_t>(o.at(1)) % files.size();
                        auto db = load(files[k], o.at(2), t.get("oom") > 0 || t.get("refuse") > 0);
                        got[i].push_back({k, db});
                    }
                    if (o.k == "use" && static_cast<size_t>(o.at(0)) % n == i && !t.get("oom"))
                    {
                        const std::string s = use(i);
                        c.check(s == usual, "C16:disturbs", "components in use give another result while a file is loaded: " + Difference(usual, s));
                    }
                }
            });
        }
        const sim::ThreadReport rep = sim::RunThreads(c, bodies, plan);
        const bool fired = sim::g_allocFired;
        sim::g_allocFailAt = -1;
        sim::g_allocFired = false;
        if (fired) { c.fault("allocation_failed"); }
        if (rep.createFailed) { c.fault("thread_refused"); }
        c.check(rep.alive == 0 && sim::LibThreadsAlive() == 0, "C16:thread-left", "a thread of the loader is left running");
        if (!fired && !rep.createFailed && (t.get("oom") || t.get("refuse")))
        {
            // the fault was drawn for later than the end: then everything must have gone well
            for (auto& g : got)
            {
                for (auto& x : g) { c.check(x.db || !files[x.file].valid || files[x.file].odd || !files[x.file].readable, "C16:refuses", "a good file is refused although nothing failed"); }
            }
        }
        c.check(SigOf(*oldDb) == oldSig, "C16:disturbs", "a database already in use has changed");
        for (size_t i = 0; i < n; ++i) { c.check(use(i) == usual, "C16:disturbs", "components in use give another result after loading"); }
        for (auto& g : got)
        {
            for (auto& x : g)
            {
                if (x.db && !files[x.file].odd) { c.check(SigOf(*x.db) == files[x.file].sig, "C16:incomplete", "a loaded database has changed since"); }
            }
        }
        // one at a time, with memory failing at one point: nothing may be lost
        plan.createFailAt = -1;
        sim::RunThreads(c, {[&] {
            for (auto& o : t.ops)
            {
                if (o.k != "alone") { continue; }
                const File& f = files[static_cast<size_t>(o.at(0)) % files.size()];
                load(f, o.at(1), false);
                auto attempt = [&] {
                    try
                    {
                        Lib([&] { return o.at(1) == BY_FILE ? ne::LoadJsonDbFile(f.path) : ne::ParseJsonDb(f.text); });
                    }
                    catch (const ne::JsonDbReaderFailure&)
                    {
                        return 1;
                    }
                    catch (const std::bad_alloc&)
                    {
                        return 2;
                    }
                    catch (const std::exception&)
                    {
                        return 3;
                    }
                    return 0;
                };
                // what stays allocated may be kept for later use, but it must not grow every time
                sim::TrackAllocs(true);
                attempt();
                int64_t left = sim::TrackedLive();
                int grown = 0;
                for (int again = 0; again < 3; ++again)
                {
                    sim::g_allocFired = false;
                    sim::g_allocFailAt = sim::g_allocCount + o.at(2);
                    sim::g_allocFailCount = std::max<int64_t>(1, o.at(3));
                    const int how = attempt();
                    sim::g_allocFailAt = -1;
                    grown += sim::TrackedLive() > left;
                    left = sim::TrackedLive();
                    if (sim::g_allocFired) { c.fault("allocation_failed"); }
                    c.ev("alone", {how, sim::g_allocFired});
                    c.check(how < 2 || (how == 2 && sim::g_allocFired), "C16:undocumented-error", "loading failed with something else than JsonDbReaderFailure");
                    if (!grown) { break; }
                }
                sim::TrackAllocs(false);
                c.check(grown < 3, "C16:leak", std::to_string(left) + " blocks are lost when the load is repeated");
                sim::g_allocFired = false;
                load(f, o.at(1), false);
                c.check(sim::LibThreadsAlive() == 0, "C16:thread-left", "a thread of the loader is left running");
            }
        }}, plan);
        c.nontrivial = c.calls > 0 && rep.created > 0;
    }
    static void Lookups(const ne::MessageDatabase& db, Ctx& c)
    {
        std::map<uint32_t, const ne::MessageDefinition*> byId;
        std::map<std::string, const ne::MessageDefinition*> byName;
        for (auto& m : db.MessageDefinitions())
        {
            byId[m->logID] = m.get();
            byName[m->name] = m.get();
        }
        for (auto& m : byId) { c.check(db.GetMsgDef(static_cast<int32_t>(m.first)).get() == m.second, "C16:incomplete", "message " + std::to_string(m.first) + " is not found by its id"); }
        for (auto& m : byName) { c.check(db.GetMsgDef(m.first).get() == m.second, "C16:incomplete", "message " + m.first + " is not found by its name"); }
        std::map<std::string, const ne::EnumDefinition*> ids, names;
        for (auto& e : db.EnumDefinitions())
        {
            ids[e->_id] = e.get();
            names[e->name] = e.get();
        }
        for (auto& e : ids) { c.check(db.GetEnumDefId(e.first).get() == e.second, "C16:incomplete", "enumeration " + e.first + " is not found by its id"); }
        for (auto& e : names) { c.check(db.GetEnumDefName(e.first).get() == e.second, "C16:incomplete", "enumeration " + e.first + " is not found by its name"); }
    }
    static std::string Use(cd::Node& node, const cd::Made& made)
    {
        std::string s;
        for (auto to : {cd::ENCODE_FORMAT::ASCII, cd::ENCODE_FORMAT::BINARY, cd::ENCODE_FORMAT::JSON})
        {
            const cd::Out o = node.convertFresh(made.frame, to, cd::MetaFor(made.form, made.frame, made.response));
            s += std::string(1, o.stage) + std::to_string(o.st) + o.thrown + ":" + o.bytes + "\n";
        }
        return s;
    }
};
SIM_SCENARIO("C16", Loader)
} // namespace
