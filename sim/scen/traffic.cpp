#include "traffic.hpp"

#include <cctype>
#include <cstdio>
#include <cstring>

namespace cd {
using sim::Lib;
using sim::Op;
using sim::Rng;

std::vector<int64_t> RandomNums(Rng& r, int form, const std::vector<unsigned>& w)
{
    unsigned tot = 0;
    for (unsigned x : w) { tot += x; }
    uint64_t k = r.below(tot);
    int64_t kind = 0;
    while (k >= w[static_cast<size_t>(kind)]) { k -= w[static_cast<size_t>(kind++)]; }
    return {static_cast<int64_t>(r.below(10)), static_cast<int64_t>(r.below(2)), static_cast<int64_t>(r.below(1u << 30)), form, kind, static_cast<int64_t>(r.below(1u << 30))};
}

static std::string Num(const char* fmt, double v)
{
    char b[64];
    std::snprintf(b, sizeof b, fmt, v);
    return b;
}
static std::string RespHeader(const mdb::Db& db, const Made& m, int form)
{
    mdb::Hdr h = m.h;
    const std::string whole = mdb::Message(db, *m.m, *m.f, h, m.row, form);
    if (form == mdb::F_ASC) { return whole.substr(1, whole.find(';')); }
    return "";
}
static std::string Response(const mdb::Db& db, const Made& m, int form, int32_t id)
{
    switch (form)
    {
    case mdb::F_BIN: {
        const mdb::Hdr& h = m.h;
        return wire::Binary(wire::Le<int32_t>(id) + m.respText, h.id, h.week, h.ms, h.type, h.port, h.seq, h.idle, h.tstat, h.rxstat, h.crc, h.swver);
    }
    case mdb::F_ASC: return wire::Ascii(RespHeader(db, m, form) + m.respText);
    case mdb::F_ABB: return "<" + m.respText + "\r\n";
    default: return "";
    }
}
// Another revision of the message: the fields the frame carries, while m.row becomes what a receiver which only knows m.f has to see.
static bool Revised(const mdb::Db& db, Made& m, int64_t kind, Rng& k)
{
    if ((kind != K_FEWER && kind != K_MORE) || m.form == mdb::F_ABB || m.form == mdb::F_SABB || m.f->empty()) { return false; }
    mdb::Flds f = *m.f;
    mdb::Row row = m.row;
    if (kind == K_MORE)
    {
        const mdb::Flds& g = db.msgs[k.below(db.msgs.size())].latest();
        mdb::Row extra = mdb::RandomBody(db, g, k);
        for (size_t i = 0; i < g.size(); ++i)
        {
            f.push_back(g[i]);
            f.back().name = "later_" + g[i].name;
            row.push_back(extra[i]);
        }
        if (row.size() == m.row.size()) { return false; }
    }
    else
    {
        size_t cut = static_cast<size_t>(k.range(1, static_cast<int64_t>(f.size())));
        for (size_t j = f.size(); j-- > 0;)
        {
            for (size_t i = 0; i < j && j >= cut && !f[j].ref.empty(); ++i)
            {
                if (f[i].name == f[j].ref && i < cut) { cut = i; } // a count goes with its array
            }
        }
        if (cut == 0 || cut == f.size()) { return false; }
        f.resize(cut);
        row.resize(cut);
        for (size_t i = cut; i < m.f->size(); ++i)
        {
            const mdb::Fld& x = (*m.f)[i];
            mdb::Cell& cell = m.row[i];
            cell.s.clear();
            cell.rows.clear();
            cell.e.assign(x.k == mdb::K::SIMPLE || x.k == mdb::K::ENUM ? 1 : x.k == mdb::K::FIXED ? x.alen : 0, 0);
        }
    }
    if (mdb::EncBin(f, row).size() > (m.form == mdb::F_SBIN ? 255 : 20000)) { return false; }
    m.frame = mdb::Message(db, *m.m, f, m.h, row, m.form);
    m.valid = m.revised = true;
    return m.frame.size() <= 30000;
}
Made MakeMsg(const mdb::Db& db, const Op& o, size_t first)
{
    Made m;
    const int64_t kind = ((o.at(first + 4) % K_N) + K_N) % K_N;
    m.form = static_cast<int>(((o.at(first + 3) % mdb::F_FLAT) + mdb::F_FLAT) % mdb::F_FLAT);
    m.m = &db.msgs[static_cast<uint64_t>(o.at(first)) % db.msgs.size()];
    const bool sh = IsShort(m.form);
    const size_t di = sh ? m.m->defs.size() - 1 : static_cast<uint64_t>(o.at(first + 1)) % m.m->defs.size();
    m.f = &m.m->defs[di].second;
    Rng r(static_cast<uint64_t>(o.at(first + 2)) + 31);
    m.h = mdb::RandomHdr(db, *m.m, r);
    m.h.crc = static_cast<uint16_t>(m.m->defs[di].first);
    mdb::BodyOpt bo;
    if (kind == K_BIG) { bo.bigChance = 2; }
    if (kind == K_RAW && (m.form == mdb::F_BIN || m.form == mdb::F_SBIN || m.form == mdb::F_JSON))
    {
        bo.text = false;
        m.raw = true;
    }
    m.row = mdb::RandomBody(db, *m.f, r, bo);
    if (m.form == mdb::F_SBIN)
    {
        m.h.type = 0;
        if (mdb::EncBin(*m.f, m.row).size() > 255)
        {
            m.form = mdb::F_BIN;
            m.h.crc = static_cast<uint16_t>(m.m->latestCrc());
        }
    }
    Rng k(static_cast<uint64_t>(o.at(first + 5)) + 13);
    if (kind == K_RESPONSE && (m.form == mdb::F_BIN || m.form == mdb::F_ASC || m.form == mdb::F_ABB))
    {
        m.response = true;
        m.h.type |= 0x80;
        const mdb::Enm& e = db.enums[0];
        const size_t i = k.below(e.v.size());
        m.respId = static_cast<int32_t>(e.v[i].first);
        m.respText = i == 0 ? "OK" : "ERROR:" + e.desc[i];
        if (m.form == mdb::F_BIN && k.chance(1, 6)) { m.respText.clear(); } // nothing but the number
        if (e.desc[i].find('%') != std::string::npos)
        {
            m.respText = "ERROR:Invalid Message. Field = " + std::to_string(k.below(20));
            if (m.form != mdb::F_BIN) { m.respId = 0; }
        }
        m.frame = Response(db, m, m.form, m.respId);
        m.valid = true;
        return m;
    }
    {
        const mdb::Row whole = m.row;
        if (Revised(db, m, kind, k)) { return m; }
        m.row = whole;
        m.revised = false;
    }
    m.frame = mdb::Message(db, *m.m, *m.f, m.h, m.row, m.form);
    m.valid = true;
    if (m.frame.size() > 30000) // too long for the framers: send a smaller one
    {
        bo.bigChance = 0;
        bo.maxCount = 1;
        m.row = mdb::RandomBody(db, *m.f, r, bo);
        m.frame = mdb::Message(db, *m.m, *m.f, m.h, m.row, m.form);
        m.valid = m.frame.size() <= 30000;
    }
    if (kind == K_HOSTILE)
    {
        m.frame = Reseal(Hostile(m.frame, m.form, k, static_cast<int>(k.range(1, 6))), m.form);
        m.valid = false;
    }
    else if (kind == K_DAMAGED)
    {
        m.frame = Hostile(m.frame, m.form, k, static_cast<int>(k.range(1, 3)));
        if (k.chance(1, 3) && m.frame.size() > 12) { m.frame.resize(static_cast<size_t>(k.range(12, static_cast<int64_t>(m.frame.size())))); }
        m.valid = false;
    }
    return m;
}
std::string Expected(const mdb::Db& db, const Made& m, int form)
{
    if (!m.valid) { return ""; }
    if (m.response)
    {
        if (m.form == mdb::F_ABB && form != mdb::F_ABB) { return ""; } // carries neither header nor id
        return Response(db, m, form, m.respId);
    }
    const bool sh = IsShort(m.form);
    if (m.raw && (form == mdb::F_ASC || form == mdb::F_SASC || form == mdb::F_ABB || form == mdb::F_SABB)) { return ""; }
    if (form != mdb::F_FLAT && sh != IsShort(form)) { return ""; }
    if (sh && form == mdb::F_FLAT) { return ""; }
    if (form == mdb::F_SBIN && mdb::EncBin(*m.f, m.row).size() > 255) { return ""; }
    mdb::Hdr h = m.h;
    if (form == mdb::F_FLAT || form == mdb::F_BIN)
    {
        if ((form == mdb::F_FLAT ? mdb::EncFlat(*m.f, m.row) : mdb::EncBin(*m.f, m.row)).size() > 65535) { return ""; }
    }
    return mdb::Message(db, *m.m, *m.f, h, m.row, form);
}

// ------------------------------------------------------------------ hostile contents
static const char* const kTok[] = {"",        "-1",     "4294967295", "99999999999999999999", "0",    "65535", "\"",     "\"\"",  "abc",   "1e999", "nan",   "-",      "+",
                                   "\\x",     "\\xZ1",  "0x",         "TRUE",                 "2e",   "1+",    "1-2-3",  "-99999", "255",   "256",   "1.5.2", "\"open", "close\"",
                                   "\"a\"b\"", "ffffffffff", "2147483648", "UNKNOWN",           "7+-9", "32768", "300",    "17",    "\x80\xff", " ",     "1 2",   "<",      "."};
static const char* const kJson[] = {"null", "-1",  "4294967295", "99999999999999999999", "1e400", "\"\"", "\"abc\"", "[]",         "{}",        "true",      "[1,2,3]", "[[1]]",  "[\"a\"]",
                                    "0",    "1.5", "\"1+\"",      "\"\\u0000\"",           "[null]", "300", "-99999",  "\"\\\\x\"", "{\"a\": 1}", "[{},{}]", "65536",  "\"zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\""};
static std::string LongTok(Rng& r)
{
    switch (r.below(4))
    {
    case 0: return std::string(r.below(600) + 1, '9');
    case 1: return std::string(r.below(600) + 1, 'a');
    case 2: return "\"" + std::string(r.below(600), 'b') + "\"";
    default: return std::string(r.below(40) + 1, '0') + "5";
    }
}
static std::string HostileText(std::string s, Rng& r, int form)
{
    const bool abb = form == mdb::F_ABB || form == mdb::F_SABB;
    const size_t star = abb ? std::string::npos : s.rfind('*');
    const size_t from = 1;
    size_t end = abb ? (s.size() >= 2 ? s.size() - 2 : s.size()) : (star == std::string::npos ? s.size() : star);
    const std::string tail = s.substr(end);
    s.resize(end);
    const char* seps = abb ? " \r" : ",;";
    std::vector<std::pair<size_t, size_t>> tok;
    size_t b = from;
    for (size_t i = from; i <= s.size(); ++i)
    {
        if (i == s.size() || std::strchr(seps, s[i]))
        {
            tok.push_back({b, i - b});
            b = i + 1;
        }
    }
    // mostly the body, sometimes the header
    size_t head = 0;
    const size_t hend = abb ? s.find('\r') : s.find(';');
    while (head < tok.size() && tok[head].first <= hend && hend != std::string::npos) { ++head; }
    const size_t lo = head < tok.size() && !r.chance(1, 4) ? head : 0;
    const auto t = tok[lo + r.below(tok.size() - lo)];
    switch (r.below(11))
    {
    case 9: // slightly more than the definition allows
        if (s[t.first] == '"') { s.insert(t.first + 1, std::string(static_cast<size_t>(r.chance(2, 3) ? r.range(1, 3) : r.range(4, 300)), 'k')); }
        else { s.insert(t.first, std::string(1, r.pick({'1', '-', '0', '.'}))); }
        break;
    case 10: // a count or value that is off by one
        for (size_t k = t.first + t.second; k-- > t.first;)
        {
            if (s[k] >= '0' && s[k] < '9')
            {
                s[k]++;
                break;
            }
        }
        break;
    case 0: s.erase(t.first, t.second + (t.first + t.second < s.size() ? 1 : 0)); break;
    case 1: s.insert(t.first, s.substr(t.first, t.second) + std::string(1, seps[0])); break;
    case 2: s.resize(t.first); break;
    case 3: s.replace(t.first, t.second, LongTok(r)); break;
    case 4:
        if (!s.empty()) { s[t.first < s.size() ? t.first : s.size() - 1] = static_cast<char>(r.range(1, 126)); }
        break;
    case 5: s.insert(t.first + r.below(t.second + 1), r.pick({"\"", ",", "\\", "<", "<    ", ";", "+", "\\x4", " ", "\r\n<"})); break;
    default: s.replace(t.first, t.second, kTok[r.below(sizeof kTok / sizeof *kTok)]); break;
    }
    if (!abb)
    {
        for (char& c : s)
        {
            if (c == '*' || c == '#' || c == '%' || c == '$') { c = 'x'; }
        }
        s[0] = form == mdb::F_ASC ? '#' : '%';
    }
    return s + tail;
}
static std::string HostileJson(std::string s, Rng& r)
{
    // values: what follows ": " up to the ',' or '}' at the same depth
    std::vector<std::pair<size_t, size_t>> vals;
    for (size_t i = 0; i + 2 < s.size(); ++i)
    {
        if (s[i] != '"' || s[i + 1] != ':' || s[i + 2] != ' ') { continue; }
        size_t p = i + 3, d = 0;
        bool str = false;
        for (; p < s.size(); ++p)
        {
            const char ch = s[p];
            if (str)
            {
                if (ch == '\\') { ++p; }
                else if (ch == '"') { str = false; }
                continue;
            }
            if (ch == '"') { str = true; }
            else if (ch == '{' || ch == '[') { ++d; }
            else if ((ch == ',' || ch == '}') && d == 0) { break; }
            else if (ch == '}' || ch == ']') { --d; }
        }
        if (p < s.size()) { vals.push_back({i + 3, p - i - 3}); }
    }
    if (vals.empty()) { return s; }
    const auto v = vals[r.below(vals.size())];
    if (r.chance(1, 3)) // values slightly larger than the definition allows
    {
        const std::string x = s.substr(v.first, v.second);
        const size_t k = static_cast<size_t>(r.chance(2, 3) ? r.range(1, 3) : r.range(4, 300));
        if (!x.empty() && x[0] == '"') { s.insert(v.first + 1, std::string(k, 'k')); }
        else if (!x.empty() && x[0] == '[')
        {
            // elements are repeated up to (and including) the comma that ends one of them
            const size_t comma = x.find(',');
            const std::string e = comma == std::string::npos ? x.substr(1, x.rfind(']') - 1) + "," : x.substr(1, comma);
            std::string add;
            for (size_t i = 0; i < k && x.size() > 2; ++i) { add += e; }
            s.insert(v.first + 1, add);
        }
        else { s.insert(v.first, std::string(1, r.pick({'1', '-', '0', '['}))); }
        return s;
    }
    switch (r.below(6))
    {
    case 0: { // drop the member
        size_t k = s.rfind('"', v.first - 4);
        if (k == std::string::npos) { break; }
        size_t e = v.first + v.second;
        if (s[e] == ',') { ++e; }
        s.erase(k, e - k);
        break;
    }
    case 1: s.replace(v.first, v.second, LongTok(r)); break;
    case 2: s[v.first + r.below(v.second + 1)] = static_cast<char>(r.range(32, 126)); break;
    default: s.replace(v.first, v.second, kJson[r.below(sizeof kJson / sizeof *kJson)]); break;
    }
    return s;
}
static std::string HostileBinary(std::string s, Rng& r, int form)
{
    const size_t hl = form == mdb::F_BIN ? 28 : 12;
    if (s.size() < hl + 4) { return s; }
    const size_t body = s.size() - hl - 4;
    auto put = [&](size_t p, uint64_t v, size_t n) {
        for (size_t i = 0; i < n && p + i < s.size() - 4; ++i) { s[p + i] = static_cast<char>(v >> (8 * i)); }
    };
    static const uint64_t vals[] = {0xFFFFFFFFFFFFFFFFull, 0x7FFFFFFF, 0x80000000u, 0xFFFF, 0x7FFF, 0x10000, 0x100, 255, 128, 127, 4, 3, 2, 1, 0, 0x40000000, 0x20000001, 0x7FF0000000000000ull, 0x7F800000};
    const uint64_t v = vals[r.below(sizeof vals / sizeof *vals)];
    switch (r.below(8))
    {
    case 0:
    case 1:
    case 2:
        if (body) { put(hl + 4 * r.below((body + 3) / 4), v, r.pick<size_t>({1, 2, 4, 4, 4, 8})); }
        break;
    case 3:
        if (body) { put(hl + r.below(body), v, r.pick<size_t>({1, 2, 4})); }
        break;
    case 4: s.erase(hl + body - std::min<size_t>(body, r.below(body + 1)), std::string::npos), s += "CRC!"; break; // shorter body
    case 5: s.insert(s.size() - 4, wire::RandomBytes(r, r.below(form == mdb::F_BIN ? 300 : 60))); break;          // longer body
    case 6: put(form == mdb::F_BIN ? r.pick<size_t>({4, 5, 6, 7, 10, 13, 14, 24}) : r.pick<size_t>({4, 5, 6, 8}), v, r.pick<size_t>({1, 2})); break;
    default:
        for (size_t i = 0; i < 3 && body; ++i) { s[hl + r.below(body)] ^= static_cast<char>(1 << r.below(8)); }
        break;
    }
    return s;
}
std::string Hostile(const std::string& frame, int form, Rng& r, int rounds)
{
    std::string s = frame;
    for (int i = 0; i < rounds; ++i)
    {
        if (form == mdb::F_JSON) { s = HostileJson(s, r); }
        else if (form == mdb::F_BIN || form == mdb::F_SBIN) { s = HostileBinary(s, r, form); }
        else if (s.size() > 2) { s = HostileText(s, r, form); }
    }
    return s;
}
std::string Reseal(const std::string& f, int form)
{
    std::string s = f;
    if (form == mdb::F_BIN && s.size() >= 32)
    {
        s[0] = '\xAA', s[1] = '\x44', s[2] = '\x12', s[3] = 28;
        const uint16_t n = static_cast<uint16_t>(s.size() - 32);
        s[8] = static_cast<char>(n), s[9] = static_cast<char>(n >> 8);
        s.resize(s.size() - 4);
        return s + wire::Le<uint32_t>(wire::Crc32(s));
    }
    if (form == mdb::F_SBIN && s.size() >= 16)
    {
        if (s.size() > 12 + 255 + 4) { s.resize(12 + 255 + 4); }
        s[0] = '\xAA', s[1] = '\x44', s[2] = '\x13', s[3] = static_cast<char>(s.size() - 16);
        s.resize(s.size() - 4);
        return s + wire::Le<uint32_t>(wire::Crc32(s));
    }
    if (form == mdb::F_ASC || form == mdb::F_SASC)
    {
        const size_t star = s.rfind('*');
        const std::string t = s.substr(1, (star == std::string::npos ? s.size() : star) - 1);
        return form == mdb::F_ASC ? wire::Ascii(t) : wire::AsciiShort(t);
    }
    return s;
}
bool FrameIt(const std::string& bytes, int form, Framed& out)
{
    FramerFeed ff(form == mdb::F_JSON);
    std::vector<Framed> v;
    ff.feed(form == mdb::F_ABB || form == mdb::F_SABB ? bytes + "[COM1]" : bytes, v);
    for (auto& f : v)
    {
        if (!f.unknown)
        {
            out = f;
            return true;
        }
    }
    return false;
}

// ------------------------------------------------------------------ reading decoded values
using novatel::edie::BaseField;
using novatel::edie::FIELD_TYPE;
static void DumpVariant(std::string& o, const BaseField& fd, const novatel::edie::FieldValueVariant& v);
static void DumpScalar(std::string& o, const void* p, size_t n) { o += sim::Hex(std::string_view(static_cast<const char*>(p), n)) + " "; }
static void DumpCf(std::string& o, const CompositeField& cf, const novatel::edie::FieldInfo* info)
{
    o += '{';
    if (info)
    {
        for (const auto& f : info->messageOrderedFields)
        {
            o += f->name + '=';
            DumpVariant(o, *f, cf.GetFieldValueVariant(*f));
        }
    }
    o += '}';
}
static void DumpVariant(std::string& o, const BaseField& fd, const novatel::edie::FieldValueVariant& v)
{
    std::visit(
        [&](const auto& x) {
            using T = std::decay_t<decltype(x)>;
            if constexpr (std::is_arithmetic_v<T>) { DumpScalar(o, &x, sizeof x); }
            else if constexpr (std::is_same_v<T, std::string>) { o += '"' + sim::Hex(x) + "\" "; }
            else if constexpr (std::is_same_v<T, novatel::edie::FlatFieldArray>)
            {
                o += '[' + std::to_string(x.size()) + ':';
                for (size_t i = 0; i < x.size(); ++i)
                {
                    const CompositeField row = CompositeField::ViewFixedFields(x.data() + i * x.GetFieldInfo()->fixedFieldBytes, x.GetFieldInfo()->fixedFieldBytes);
                    DumpCf(o, row, x.GetFieldInfo());
                }
                o += ']';
            }
            else if constexpr (std::is_same_v<T, novatel::edie::CompositeFieldArray>)
            {
                const auto* fa = dynamic_cast<const novatel::edie::FieldArrayField*>(&fd);
                o += '[' + std::to_string(x.size()) + ':';
                for (const auto& row : x) { DumpCf(o, row, fa ? fa->fieldInfo.get() : row.GetFieldInfo().get()); }
                o += ']';
            }
            else
            {
                o += '(';
                for (size_t i = 0; i < x.size(); ++i)
                {
                    const auto e = x[i];
                    DumpScalar(o, &e, sizeof e);
                }
                o += ')';
            }
        },
        v);
}
std::string Dump(const CompositeField& cf)
{
    std::string o;
    DumpCf(o, cf, cf.GetFieldInfo().get());
    return o;
}
std::string DumpHdr(const IntermediateHeader& h)
{
    char b[256];
    std::snprintf(b, sizeof b, "%u/%u/%u/%u/%u/%u/%u/%u/%.6f/%u/%u/%u", h.usMessageId, h.ucMessageType, h.uiPortAddress, h.usLength, h.usSequence, h.ucIdleTime, h.uiTimeStatus, h.usWeek, h.dMilliseconds,
                  h.uiReceiverStatus, h.uiMessageDefinitionCrc, h.usReceiverSwVersion);
    return b;
}
std::string DumpMeta(const MetaDataStruct& m)
{
    char b[256];
    std::snprintf(b, sizeof b, "%d/%d/%u/%.6f/%u/%u/%u/%u/%u/%u/%d/", m.bResponse, static_cast<int>(m.eFormat), m.usWeek, m.dMilliseconds, m.uiLength, m.uiBinaryMsgLength, m.uiHeaderLength, m.usMessageId,
                  m.uiMessageCrc, m.ucSiblingId, static_cast<int>(m.eTimeStatus));
    return b + m.messageName;
}
} // namespace cd
