#include "wire.hpp"

#include <cstdio>
#include <cstring>

namespace wire {
using sim::Rng;

uint32_t Crc32(std::string_view s, uint32_t c)
{
    static const auto tab = [] {
        std::array<uint32_t, 256> t{};
        for (uint32_t i = 0; i < 256; ++i)
        {
            uint32_t v = i;
            for (int k = 0; k < 8; ++k) { v = (v & 1) ? (v >> 1) ^ 0xEDB88320u : v >> 1; }
            t[i] = v;
        }
        return t;
    }();
    for (unsigned char b : s) { c = tab[(c ^ b) & 0xFF] ^ (c >> 8); }
    return c;
}
uint8_t Xor8(std::string_view s)
{
    uint8_t x = 0;
    for (unsigned char b : s) { x ^= b; }
    return x;
}
std::string HexCrc(uint32_t v, bool upper)
{
    char b[16];
    std::snprintf(b, sizeof b, upper ? "%08X" : "%08x", v);
    return b;
}
const char* FmtName(unsigned f)
{
    switch (f)
    {
    case BIN: return "BINARY";
    case SBIN: return "SHORT_BINARY";
    case ASC: return "ASCII";
    case SASC: return "SHORT_ASCII";
    case NMEA: return "NMEA";
    case ABB: return "ABB_ASCII";
    case JSON: return "JSON";
    case PBIN: return "PROPRIETARY_BINARY";
    default: return "UNKNOWN";
    }
}

static int HexVal(unsigned char c)
{
    if (c >= '0' && c <= '9') { return c - '0'; }
    if (c >= 'a' && c <= 'f') { return c - 'a' + 10; }
    if (c >= 'A' && c <= 'F') { return c - 'A' + 10; }
    return -1;
}
static bool ParseHex(std::string_view h, uint32_t& v)
{
    v = 0;
    for (unsigned char c : h)
    {
        int d = HexVal(c);
        if (d < 0) { return false; }
        v = v * 16 + d;
    }
    return !h.empty();
}

Decision At(std::string_view s, size_t p, const Grammar& g)
{
    auto no = [](size_t need) { return Decision{Verdict::NO, 0, 0, need, false}; };
    auto more = [] { return Decision{Verdict::MORE, 0, 0, 0, false}; };
    auto frame = [](unsigned f, size_t len, size_t need, bool resp = false) { return Decision{Verdict::FRAME, f, len, need, resp}; };
    const std::string_view t = s.substr(p);
    auto at = [&](size_t i) { return static_cast<unsigned char>(t[i]); };
    const size_t n = t.size();
    if (n == 0) { return more(); }
    const unsigned char c0 = at(0);
    if (c0 == 0xAA)
    {
        if (!(g.mask & (BIN | SBIN | PBIN))) { return no(1); }
        if (n < 2) { return more(); }
        const bool prop = at(1) == 0x45 && (g.mask & PBIN);
        if (!prop && at(1) != 0x44) { return no(2); }
        if (n < 3) { return more(); }
        size_t hdr, total, max;
        unsigned fmt;
        if (at(2) == 0x12 && (prop || (g.mask & BIN)))
        {
            hdr = 28;
            max = kMax;
            fmt = prop ? PBIN : BIN;
            if (n < hdr) { return more(); }
            total = hdr + (at(8) | at(9) << 8) + 4;
        }
        else if (at(2) == 0x13 && (g.mask & SBIN))
        {
            hdr = 12;
            max = 12 + 255 + 4;
            fmt = SBIN;
            if (n < hdr) { return more(); }
            total = hdr + at(3) + 4;
        }
        else { return no(3); }
        if (total > max) { return no(hdr); }
        if (n < total) { return more(); }
        uint32_t crc = at(total - 4) | at(total - 3) << 8 | at(total - 2) << 16 | static_cast<uint32_t>(at(total - 1)) << 24;
        if (Crc32(t.substr(0, total - 4)) != crc) { return no(total); }
        return frame(fmt, total, total);
    }
    if (c0 == '#' || c0 == '%')
    {
        const unsigned fmt = c0 == '#' ? ASC : SASC;
        if (!(g.mask & fmt)) { return no(1); }
        for (size_t i = 1;; ++i)
        {
            if (i >= n) { return more(); }
            if (g.oemStyle && at(i) > 127) { return no(i + 1); }
            if (at(i) == '*' && i < kMax)
            {
                if (i + 10 >= n) { return more(); }
                if (at(i + 9) == '\r' && at(i + 10) == '\n')
                {
                    uint32_t crc;
                    if (!ParseHex(t.substr(i + 1, 8), crc) || crc != Crc32(t.substr(1, i - 1))) { return no(i + 11); }
                    return frame(fmt, i + 11, i + 11);
                }
            }
            else if (i + 1 >= kMax) { return no(i + 1); }
        }
    }
    if (c0 == '$')
    {
        if (!(g.mask & NMEA)) { return no(1); }
        for (size_t i = 1;; ++i)
        {
            if (i >= n) { return more(); }
            if (at(i) > 127) { return no(i + 1); }
            if (at(i) == '*')
            {
                // *hh<CR><LF>
                if (i + 4 >= kNmeaMax) { return no(kNmeaMax); }
                for (size_t k = i + 1; k <= i + 4; ++k)
                {
                    if (k >= n) { return more(); }
                    const bool ok = k <= i + 2 ? HexVal(at(k)) >= 0 : at(k) == (k == i + 3 ? '\r' : '\n');
                    if (!ok) { return no(kNmeaMax); }
                }
                const size_t len = i + 5;
                if (len <= 11) { return no(len); }
                if (HexVal(at(i + 1)) * 16 + HexVal(at(i + 2)) != Xor8(t.substr(1, i - 1))) { return no(len); }
                return frame(NMEA, len, len);
            }
            if (i + 1 >= kNmeaMax) { return no(i + 1); }
        }
    }
    if (c0 == '<')
    {
        if (!(g.mask & ABB)) { return no(1); }
        if (n < 2) { return more(); }
        if (at(1) == ' ') { return no(2); }
        if (g.oemStyle && !((at(1) | 32) >= 'a' && (at(1) | 32) <= 'z')) { return no(2); }
        size_t i = g.oemStyle ? 2 : 1;
        for (;; ++i)
        {
            if (i + 1 >= kMax) { return no(i + 1); }
            if (i >= n) { return more(); }
            if (g.oemStyle && at(i) > 127) { return no(i + 1); }
            if (at(i) == '\r')
            {
                if (i + 1 >= n) { return more(); }
                if (at(i + 1) == '\n') { break; }
            }
        }
        if (t.substr(1, 2) == "OK" || t.substr(1, 5) == "ERROR") { return frame(ABB, i + 2, i + 2, true); }
        if (i + 3 >= n) { return more(); }
        if (t.substr(i + 2, 2) != "< ") { return no(i + 4); }
        for (i += 2;; ++i)
        {
            if (i + 3 >= n) { return more(); }
            if (g.oemStyle && at(i) > 127) { return no(i + 1); }
            if (at(i) == '\r' && at(i + 1) == '\n' && t.substr(i + 2, 2) != "< ") { return frame(ABB, i + 2, i + 4); }
            if (i + 1 >= kMax) { return no(i + 1); }
        }
    }
    if (c0 == '{')
    {
        if (!(g.mask & JSON)) { return no(1); }
        int64_t depth = 1;
        bool str = false, esc = false;
        for (size_t i = 1;; ++i)
        {
            if (i >= n) { return more(); }
            if (at(i) > 127) { return no(i + 1); }
            if (esc) { esc = false; }
            else if (str) { esc = at(i) == '\\', str = at(i) != '"'; }
            else if (at(i) == '"') { str = true; }
            else { depth += at(i) == '{' ? 1 : at(i) == '}' ? -1 : 0; }
            if (depth == 0) { return frame(JSON, i + 1, i + 1); }
            if (i + 1 >= kMax) { return no(i + 1); }
        }
    }
    return no(1);
}

Parsed Model(std::string_view s, const Grammar& g)
{
    Parsed r;
    size_t p = 0;
    while (p < s.size())
    {
        Decision d = At(s, p, g);
        if (d.v == Verdict::MORE) { break; }
        r.maxNeed = std::max(r.maxNeed, d.need);
        if (d.v == Verdict::FRAME)
        {
            r.frames.push_back({p, d.len, d.fmt, d.response});
            p += d.len;
        }
        else { ++p; }
    }
    r.undecided = p;
    return r;
}

std::string Validate(std::string_view f, unsigned fmt, bool response, const Grammar& g)
{
    // The follow-up context only matters for abbreviated ASCII, where the line after the frame decides its end.
    std::string ctx(f);
    if (fmt == ABB && !response) { ctx += "xx"; }
    Grammar one = g;
    one.mask = fmt;
    if (fmt == BIN || fmt == PBIN) { one.mask = BIN | PBIN; }
    Decision d = At(ctx, 0, one);
    if (d.v == Verdict::NO) { return "the bytes are not a well-formed, checksum-valid message"; }
    if (d.v == Verdict::MORE) { return "the bytes are only the beginning of a message"; }
    if (d.len != f.size()) { return "the message in the bytes has length " + std::to_string(d.len) + ", not " + std::to_string(f.size()); }
    if (d.fmt != fmt) { return std::string("the bytes are a ") + FmtName(d.fmt) + " message"; }
    if (d.response != response) { return d.response ? "a response not flagged as one" : "a log flagged as response"; }
    return {};
}

// ---------------------------------------------------------------- builders
std::string Binary(std::string_view body, uint16_t id, uint16_t week, uint32_t ms, uint8_t type, uint8_t port, uint16_t seq, uint8_t idle,
                   uint8_t tstat, uint32_t rxstat, uint16_t msgCrc, uint16_t swver, uint8_t sync2)
{
    std::string m;
    m += '\xAA';
    m += static_cast<char>(sync2);
    m += '\x12';
    m += static_cast<char>(28);
    m += Le(id);
    m += static_cast<char>(type);
    m += static_cast<char>(port);
    m += Le(static_cast<uint16_t>(body.size()));
    m += Le(seq);
    m += static_cast<char>(idle);
    m += static_cast<char>(tstat);
    m += Le(week);
    m += Le(ms);
    m += Le(rxstat);
    m += Le(msgCrc);
    m += Le(swver);
    m += body;
    m += Le(Crc32(m));
    return m;
}
std::string BinaryShort(std::string_view body, uint16_t id, uint16_t week, uint32_t ms)
{
    std::string m("\xAA\x44\x13", 3);
    m += static_cast<char>(body.size());
    m += Le(id);
    m += Le(week);
    m += Le(ms);
    m += body;
    m += Le(Crc32(m));
    return m;
}
std::string Ascii(std::string_view t) { return "#" + std::string(t) + "*" + HexCrc(Crc32(t)) + "\r\n"; }
std::string AsciiShort(std::string_view t) { return "%" + std::string(t) + "*" + HexCrc(Crc32(t)) + "\r\n"; }
std::string Nmea(std::string_view t)
{
    char b[8];
    std::snprintf(b, sizeof b, "*%02X\r\n", Xor8(t));
    return "$" + std::string(t) + b;
}

std::string RandomBytes(Rng& r, size_t n)
{
    std::string s;
    // mixture: uniform bytes, and bytes that mean something to a framer
    static const std::string hot("\xAA\x44\x12\x13\x45#%$<{}*\r\n ,;OKERRO\x7F\x80\xFF\x00", 28);
    const unsigned w = static_cast<unsigned>(r.pick({0, 2, 5, 9}));
    while (s.size() < n) { s += r.chance(w, 10) ? hot[r.below(hot.size())] : static_cast<char>(r.below(256)); }
    return s;
}
std::string RandomText(Rng& r, size_t n, bool withCrlf)
{
    static const std::string plain = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789.,-_ \"()/+";
    static const std::string hot = "#%$<{}*;,";
    std::string s;
    const unsigned w = static_cast<unsigned>(r.pick({0, 1, 3, 6}));
    while (s.size() < n)
    {
        if (withCrlf && r.chance(1, 60)) { s += "\r\n"; }
        else if (r.chance(w, 20)) { s += hot[r.below(hot.size())]; }
        else { s += plain[r.below(plain.size())]; }
    }
    return s;
}

static std::string Name(Rng& r)
{
    static const std::vector<std::string> names = {"BESTPOS", "BESTVEL", "TIME", "RANGE", "RAWIMU", "VERSION", "INSPVA", "TRACKSTAT", "HEADING2", "RXSTATUS"};
    return r.pick(names);
}

std::string RandomFrame(Rng& r, unsigned kind, size_t maxBody)
{
    const uint16_t week = static_cast<uint16_t>(r.range(1000, 2400));
    const uint32_t ms = static_cast<uint32_t>(r.below(604800000));
    auto text = [&](size_t n) {
        // body text that never contains the end-of-message pattern by construction of the '*' rule
        std::string s = RandomText(r, n, r.chance(1, 3));
        for (;;)
        {
            bool bad = false;
            std::string probe = s + "*00000000\r\n";
            for (size_t i = 0; i < s.size(); ++i)
            {
                if (s[i] == '*' && probe[std::min(i + 9, probe.size() - 1)] == '\r' && i + 10 < probe.size() && probe[i + 10] == '\n')
                {
                    s[i] = '+';
                    bad = true;
                }
            }
            if (!bad) { break; }
        }
        return s;
    };
    const size_t n = r.chance(1, 8) ? 0 : r.below(r.chance(1, 3) ? maxBody + 1 : std::min<size_t>(maxBody, 40) + 1);
    switch (kind)
    {
    case BIN:
    case PBIN: {
        std::string body = r.chance(1, 4) ? RandomText(r, n, true) : RandomBytes(r, n);
        if (r.chance(1, 6)) { body += RandomFrame(r, r.pick({BIN, SBIN, ASC, NMEA}), 24); } // a message inside a message
        return Binary(body, static_cast<uint16_t>(r.below(3000)), week, ms, static_cast<uint8_t>(r.pick({0, 0, 0, 0x80, 0x20, 0x01})), 0x20,
                      static_cast<uint16_t>(r.below(4)), 90, 180, static_cast<uint32_t>(r.next()), static_cast<uint16_t>(r.next()), 16000,
                      kind == PBIN ? 0x45 : 0x44);
    }
    case SBIN: {
        std::string body = RandomBytes(r, std::min<size_t>(n, 255));
        if (r.chance(1, 8)) { body = RandomBytes(r, 255); }
        if (r.chance(1, 6) && body.size() < 200) { body += RandomFrame(r, NMEA, 10); }
        return BinaryShort(body.substr(0, 255), static_cast<uint16_t>(r.below(3000)), week, ms);
    }
    case ASC: {
        std::string h = Name(r) + "A,COM1,0,90.0,FINESTEERING," + std::to_string(week) + "," + std::to_string(ms / 1000) + ".000,00000000,0000,16000;";
        if (r.chance(1, 6))
        {
            // RXCONFIG style: an embedded message with its own checksum and no line end
            std::string in = "COM,COM1,9600" + text(r.below(20));
            return Ascii("RXCONFIGA,COM1,0,90.0,FINE,2000,100.000,00000000,0000,16000;#" + in + "*" + HexCrc(Crc32(in)));
        }
        return Ascii(h + text(n));
    }
    case SASC: return AsciiShort(Name(r) + "SA," + std::to_string(week) + "," + std::to_string(ms / 1000) + ".000;" + text(n));
    case NMEA: {
        std::string b = r.pick({"GPGGA,", "GPZDA,", "GNRMC,"}) + RandomText(r, std::min<size_t>(n, 200), false);
        for (auto& c : b)
        {
            if (c == '*') { c = '.'; }
        }
        return Nmea(b);
    }
    case ABB: {
        if (r.chance(1, 3)) { return std::string("<") + r.pick({"OK", "ERROR:Invalid Message ID", "OKAY", "ERROR"}) + "\r\n"; }
        std::string m = "<" + Name(r) + " COM1 0 90.0 FINESTEERING " + std::to_string(week) + " " + std::to_string(ms / 1000) + ".000 00000000 0000 16000\r\n";
        for (int64_t k = r.range(1, 3); k > 0; --k)
        {
            std::string t = RandomText(r, std::min<size_t>(n, 60), false);
            m += "<     " + t + "\r\n";
        }
        return m;
    }
    case JSON: {
        std::string m = "{\"header\": {\"message\": \"" + Name(r) + "\",\"id\": " + std::to_string(r.below(1000)) + "},\"body\": {";
        for (int64_t k = r.range(0, 4); k > 0; --k)
        {
            static const char* const strs[] = {"\"a{b\"", "\"}\"", "\"\\\\\"", "\"{\\\"}\"", "\"\""};
            m += "\"f" + std::to_string(k) + "\": " + (r.chance(1, 4) ? strs[r.below(5)] : std::to_string(r.below(100000))) + (k > 1 ? "," : "");
        }
        return m + "}}";
    }
    default: return RandomBytes(r, n);
    }
}

std::string Damage(Rng& r, const std::string& m, const std::string& other, std::string& what)
{
    std::string d = m;
    if (d.empty()) { return d; }
    switch (r.below(9))
    {
    case 0: {
        what = "byte_flip";
        size_t i = r.below(d.size());
        d[i] = static_cast<char>(d[i] ^ (1u << r.below(8)));
        break;
    }
    case 1: {
        what = "byte_overwrite";
        size_t i = r.below(d.size()), n = 1 + r.below(8);
        std::string b = RandomBytes(r, n);
        for (size_t k = 0; k < n && i + k < d.size(); ++k) { d[i + k] = b[k]; }
        break;
    }
    case 2: {
        what = "bytes_lost";
        size_t i = r.below(d.size());
        d.erase(i, 1 + r.below(r.chance(1, 2) ? 3 : d.size()));
        break;
    }
    case 3: {
        what = "truncated_tail"; // sender died mid-message
        d.resize(r.below(d.size()));
        break;
    }
    case 4: {
        what = "truncated_head"; // joined mid-message
        d.erase(0, 1 + r.below(d.size()));
        break;
    }
    case 5: {
        what = "bytes_duplicated";
        size_t i = r.below(d.size()), n = 1 + r.below(d.size() - i);
        d.insert(i, d.substr(i, n));
        break;
    }
    case 6: {
        what = "bytes_inserted";
        d.insert(r.below(d.size() + 1), RandomBytes(r, 1 + r.below(6)));
        break;
    }
    case 7: {
        what = "spliced"; // head of one message, tail of another
        size_t i = r.below(d.size());
        d.resize(i);
        if (!other.empty()) { d += other.substr(r.below(other.size())); }
        break;
    }
    default: {
        what = "trailer_damaged";
        size_t i = d.size() - 1 - r.below(std::min<size_t>(d.size(), 12));
        if (r.chance(1, 2)) { d[i] = static_cast<char>(d[i] ^ (1u << r.below(8))); }
        else { d.erase(i, 1 + r.below(3)); }
        break;
    }
    }
    return d;
}
} // namespace wire
