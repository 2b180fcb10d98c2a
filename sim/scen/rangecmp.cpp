// C14: a receiver (or two antennas) whose compressed range logs reach the decompressor over a link that loses, repeats
// and reorders them. An independent decompressor that takes the delivered history explicitly is the reference.
// C20-range: the same logs with forged contents in buffers of exactly their size.
#include "../msgdb.hpp"
#include "codec.hpp"
#include "traffic.hpp"

#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"

#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <tuple>

namespace {
using namespace cd;
using sim::Ctx;
using sim::Lib;
using sim::Op;
using sim::Rng;
using sim::Trace;

// ------------------------------------------------------------------ published tables
enum Wl
{
    W_L1,
    W_L2,
    W_L5,
    W_E5B,
    W_E6,
    W_ALT,
    W_B1,
    W_B3,
    W_GL1,
    W_GL2,
    W_GL3
};
struct Sig
{
    int rc2, rc4, cts;
    Wl w;
    double scale;
};
struct Sys
{
    int id, cts;
    std::vector<Sig> sigs;
};
const std::vector<Sys>& Systems()
{
    static const std::vector<Sys> s = {
        {0, 0, {{1, 1, 0, W_L1, 1}, {4, 4, 9, W_L2, 154.0 / 120}, {5, 5, 17, W_L2, 154.0 / 120}, {7, 7, 14, W_L5, 154.0 / 115}, {15, 15, 16, W_L1, 1}}},
        {1, 1, {{1, 1, 0, W_GL1, 1}, {3, 3, 1, W_GL2, 9.0 / 7}, {4, 4, 5, W_GL2, 9.0 / 7}, {6, 6, 6, W_GL3, 313.0 / 235}}},
        {2, 2, {{1, 1, 0, W_L1, 1}, {2, 2, 6, W_L5, 154.0 / 115}}},
        {5, 3, {{1, 1, 2, W_L1, 1}, {2, 2, 12, W_L5, 154.0 / 115}, {3, 3, 17, W_E5B, 154.0 / 118}, {4, 4, 20, W_ALT, 154.0 / 116.5}, {5, 5, 7, W_E6, 154.0 / 125}, {12, 12, 6, W_E6, 154.0 / 125}}},
        {6, 4, {{1, 1, 0, W_B1, 1}, {2, 2, 4, W_B1, 1}, {3, 3, 1, W_E5B, 1526.0 / 1180}, {4, 4, 5, W_E5B, 1526.0 / 1180}, {13, 5, 2, W_B3, 1526.0 / 1240}, {16, 6, 6, W_B3, 1526.0 / 1240},
                 {19, 7, 7, W_L1, 1526.0 / 1540}, {20, 9, 9, W_L5, 1526.0 / 1150}, {21, 11, 11, W_E5B, 1526.0 / 1180}}},
        {7, 5, {{1, 1, 0, W_L1, 1}, {2, 2, 24, W_L1, 1}, {3, 3, 17, W_L2, 154.0 / 120}, {4, 4, 14, W_L5, 154.0 / 115}, {8, 8, 16, W_L1, 1}, {10, 10, 28, W_E6, 154.0 / 125}, {11, 11, 27, W_E6, 154.0 / 125}}},
        {9, 6, {{1, 1, 0, W_L5, 1}}},
    };
    return s;
}
// wavelength in metres; false: no such GLONASS frequency
bool Wavelength(Wl w, int glo, double& out)
{
    const double c = 299792458.0;
    switch (w)
    {
    case W_L1: out = c / 1575.42e6; return true;
    case W_L2: out = c / 1227.60e6; return true;
    case W_L5: out = c / 1176.45e6; return true;
    case W_E5B: out = c / 1207.14e6; return true;
    case W_E6: out = c / 1278.75e6; return true;
    case W_ALT: out = c / 1191.795e6; return true;
    case W_B1: out = c / 1561.098e6; return true;
    case W_B3: out = c / 1268.52e6; return true;
    case W_GL3: out = c / 1202.025e6; return true;
    case W_GL1:
    case W_GL2:
        if (glo < 0 || glo > 20) { return false; }
        out = w == W_GL1 ? c / (1602e6 + (glo - 7) * 562500.0) : c / (1246e6 + (glo - 7) * 437500.0);
        return true;
    }
    return false;
}

// ------------------------------------------------------------------ the reference decompressor
struct Obs
{
    int prn = 0, freq = 0;
    double psr = 0, psrStd = 0, adr = 0, adrStd = 0, dopp = 0, cno = 0, lock = 0;
    uint32_t cts = 0;
    bool grpAny = false; // grouping flag not determined
    bool tainted = false;
};
struct Log
{
    int kind = 4, src = 0, week = 0;
    uint32_t ms = 0;
    std::string body;
};
struct L4
{
    bool abs = false;
    int bits = 255;
    double last = 0;
};
struct L2
{
    bool sat = false;
    double at = 0;
};
struct Ref
{
    int id = 0, glo = 0;
    double psr = 0, phr = 0, dopp = 0;
};
struct Bits
{
    const std::string& s;
    size_t pos, end; // in bits
    bool bad = false;
    uint64_t get(unsigned n)
    {
        if (bad || end - pos < n)
        {
            bad = true;
            return 0;
        }
        uint64_t v = 0;
        for (unsigned i = 0; i < n; ++i, ++pos) { v |= static_cast<uint64_t>((static_cast<unsigned char>(s[pos >> 3]) >> (pos & 7)) & 1) << i; }
        return v;
    }
    int64_t sget(unsigned n)
    {
        const uint64_t v = get(n);
        return (v >> (n - 1)) & 1 ? static_cast<int64_t>(v) - (1ll << n) : static_cast<int64_t>(v);
    }
};
template <typename T> T At(const std::string& s, size_t o)
{
    T v{};
    std::memcpy(&v, s.data() + o, sizeof v);
    return v;
}
constexpr double kWeek = 604800000.0;

struct Model
{
    using Key = std::tuple<int, int, int, int>; // source, system, prn, signal
    std::map<Key, L4> l4;
    std::map<Key, L2> l2;
    std::map<Key, Ref> refs;
    bool taint[2] = {false, false};
    void reset()
    {
        l4.clear();
        l2.clear();
        refs.clear();
        taint[0] = taint[1] = false;
    }
    double lock4(const Key& k, int bits, double now)
    {
        auto tab = [](int b) { return b == 0 ? 0.0 : 16.0 * (1 << (b - 1)); };
        L4& s = l4[k];
        if (!s.abs && bits != s.bits)
        {
            if (bits == 0 || bits > s.bits) { s.abs = true; }
            s.bits = bits;
            s.last = now;
        }
        else if (bits < s.bits || now < s.last || (s.abs && bits < 15 && now - s.last > tab(bits + 1)))
        {
            // an outage: the receiver started again
            s.abs = false;
            s.bits = bits;
            s.last = now;
        }
        return (now - s.last + tab(s.bits)) / 1000.0;
    }
    double lock2(const Key& k, uint32_t bits, double now)
    {
        L2& s = l2[k];
        double v = bits;
        if (bits != 0x1FFFF) { s.sat = false; }
        else if (s.sat && now >= s.at) { v += now - s.at; }
        else
        {
            s.sat = true;
            s.at = now;
        }
        return v / 1000.0;
    }
    // false: refused
    bool apply(const Log& g, std::vector<Obs>& out)
    {
        out.clear();
        const double now = g.week * kWeek + g.ms;
        bool ok = false;
        if (g.body.size() >= 4)
        {
            switch (g.kind)
            {
            case 1: ok = cmp1(g, out); break;
            case 2: ok = cmp2(g, out, now); break;
            case 3:
            case 4: ok = cmp45(g, out, now, true); break;
            default: ok = cmp45(g, out, now, false); break;
            }
        }
        if (!ok && g.kind != 1) { taint[g.src] = true; } // RANGECMP leaves nothing behind
        if (g.kind == 1) { return ok; }
        for (auto& o : out) { o.tainted = o.tainted || taint[g.src]; }
        return ok;
    }
    static bool cmp1(const Log& g, std::vector<Obs>& out)
    {
        static const double psrStd[16] = {0.050, 0.075, 0.113, 0.169, 0.253, 0.380, 0.570, 0.854, 1.281, 2.375, 4.750, 9.500, 19.000, 38.000, 76.000, 152.000};
        const uint32_t n = At<uint32_t>(g.body, 0);
        if (n > 325 || 4 + size_t{n} * 24 > g.body.size()) { return false; }
        for (uint32_t i = 0; i < n; ++i)
        {
            const size_t p = 4 + i * 24;
            Obs o;
            o.cts = At<uint32_t>(g.body, p);
            const uint64_t dp = At<uint64_t>(g.body, p + 4);
            int64_t d = static_cast<int64_t>(dp & 0x0FFFFFFF);
            if (d & 0x08000000) { d -= 0x10000000; }
            o.dopp = static_cast<double>(d) / 256;
            o.psr = static_cast<double>(dp >> 28) / 128;
            const double adr = At<uint32_t>(g.body, p + 12) / 256.0;
            const auto sd = static_cast<unsigned char>(g.body[p + 16]);
            o.psrStd = psrStd[sd & 15];
            o.adrStd = ((sd >> 4) + 1) / 512.0;
            o.prn = static_cast<unsigned char>(g.body[p + 17]);
            const uint32_t l = At<uint32_t>(g.body, p + 18);
            o.lock = (l & 0x1FFFFF) / 32.0;
            o.cno = ((l >> 21) & 31) + 20;
            o.freq = static_cast<int>(l >> 26);
            double w = 0;
            const int cs = static_cast<int>((o.cts >> 16) & 7), sg = static_cast<int>((o.cts >> 21) & 31);
            bool known = false;
            for (auto& s : Systems())
            {
                for (auto& q : s.sigs)
                {
                    if (s.cts == cs && q.cts == sg)
                    {
                        known = true;
                        if (!Wavelength(q.w, o.freq + 7, w)) { return false; }
                    }
                }
            }
            o.grpAny = false;
            if (known) { o.adr = adr - 8388608.0 * std::round((o.psr / w + adr) / 8388608.0); }
            else { o.tainted = true; }
            out.push_back(o);
        }
        return true;
    }
    bool cmp2(const Log& g, std::vector<Obs>& out, double now)
    {
        static const double psrStd[16] = {0.020, 0.030, 0.045, 0.066, 0.099, 0.148, 0.220, 0.329, 0.491, 0.732, 1.092, 1.629, 2.430, 3.625, 5.409, 5.409};
        static const double adrStd[16] = {0.00391, 0.00521, 0.00696, 0.00929, 0.01239, 0.01654, 0.02208, 0.02947, 0.03933, 0.05249, 0.07006, 0.09350, 0.12480, 0.16656, 0.22230, 0.22230};
        const size_t n = At<uint32_t>(g.body, 0);
        if (n + 4 > g.body.size()) { return false; }
        size_t p = 4;
        const size_t end = 4 + n;
        while (p < end)
        {
            if (end - p < 10) { return false; }
            const int chan = static_cast<unsigned char>(g.body[p]), sat = static_cast<unsigned char>(g.body[p + 1]);
            const uint64_t c = At<uint64_t>(g.body, p + 2);
            p += 10;
            const int glo = static_cast<int>(c & 15), sid = static_cast<int>((c >> 4) & 31);
            int64_t pb = static_cast<int64_t>((c >> 10) & 0x1FFFFFFF), db = static_cast<int64_t>((c >> 39) & 0x1FFFFF);
            if (pb & 0x10000000) { pb -= 0x20000000; }
            if (db & 0x100000) { db -= 0x200000; }
            const int ns = static_cast<int>(c >> 60);
            const Sys* sys = nullptr;
            for (auto& s : Systems())
            {
                if (s.id == sid) { sys = &s; }
            }
            for (int k = 0; k < ns; ++k)
            {
                if (end - p < 12 || out.size() >= 325) { return false; }
                const uint32_t a = At<uint32_t>(g.body, p);
                const uint64_t b = At<uint64_t>(g.body, p + 4);
                p += 12;
                const Sig* sig = nullptr;
                if (sys)
                {
                    for (auto& q : sys->sigs)
                    {
                        if (q.rc2 == static_cast<int>(a & 31)) { sig = &q; }
                    }
                }
                Obs o;
                if (!sys || !sig) // combinations the tables do not define are not judged
                {
                    o.tainted = true;
                    taint[g.src] = true;
                    out.push_back(o);
                    continue;
                }
                o.prn = sat + (sid == 1 ? 37 : 0);
                o.freq = glo;
                o.psr = static_cast<double>(pb) + static_cast<double>((b >> 13) & 0x3FFF) / 128.0;
                o.psrStd = psrStd[(b >> 5) & 15];
                double w = 0;
                if (!Wavelength(sig->w, glo, w)) { return false; }
                o.adr = -(static_cast<double>(pb) + static_cast<double>((b >> 27) & 0xFFFFF) / 2048.0) / w;
                o.adrStd = adrStd[(b >> 9) & 15];
                int64_t dd = static_cast<int64_t>(b >> 47);
                if (dd & 0x10000) { dd -= 0x20000; }
                o.dopp = (static_cast<double>(db) + static_cast<double>(dd) / 256.0) / sig->scale;
                o.cno = 20 + static_cast<double>(b & 31);
                o.lock = lock2({g.src, sys->cts, o.prn, sig->cts}, (a >> 8) & 0x1FFFF, now);
                const bool prim = (a >> 29) & 1;
                o.cts = (prim ? 4u : 11u) | ((static_cast<uint32_t>(chan) << 5) & 0x3E0u) | ((a & 0x20) ? 0x400u : 0) | ((a & 0x40) ? 0x800u : 0) | ((a & 0x80) ? 0x1000u : 0) |
                        ((((a >> 25) & 15) << 13) & 0xE000u) | (static_cast<uint32_t>(sys->cts) << 16) | (ns > 1 ? 0x100000u : 0) | (static_cast<uint32_t>(sig->cts) << 21) |
                        (prim ? 0x8000000u : 0) | ((a >> 30) & 1 ? 0x10000000u : 0);
                out.push_back(o);
            }
        }
        return true;
    }
    bool cmp45(const Log& g, std::vector<Obs>& out, double now, bool four)
    {
        static const double psrStd[32] = {0.020,  0.030,  0.045,  0.066,  0.099,  0.148,   0.220,   0.329,   0.491,   0.732,  1.092,  1.629,  2.430,  3.625,  5.409,  6.876,
                                          8.741,  11.111, 14.125, 17.957, 22.828, 29.020,  36.891,  46.898,  59.619,  75.791, 96.349, 122.484, 155.707, 197.943, 251.634, 251.634};
        static const double adrStd4[16] = {0.003, 0.005, 0.007, 0.009, 0.012, 0.016, 0.022, 0.029, 0.039, 0.052, 0.070, 0.093, 0.124, 0.166, 0.222, 0.222};
        static const double adrStd5[32] = {0.00391, 0.00458, 0.00536, 0.00628, 0.00735, 0.00861, 0.01001, 0.01182, 0.01385, 0.01621, 0.01900, 0.02223, 0.02607, 0.03054, 0.03577, 0.04190,
                                           0.04908, 0.05749, 0.06734, 0.07889, 0.09240, 0.10824, 0.12679, 0.14851, 0.17396, 0.20378, 0.23870, 0.27961, 0.32753, 0.38366, 0.44940, 0.44940};
        const double frac = (g.ms % 1000) / 1000.0;
        if (four && g.ms % 1000 == 0)
        {
            for (auto it = refs.begin(); it != refs.end();)
            {
                if (std::get<0>(it->first) == g.src) { it = refs.erase(it); }
                else { ++it; }
            }
        }
        const size_t n = At<uint32_t>(g.body, 0);
        if (n + 4 > g.body.size()) { return false; }
        Bits b{g.body, 32, 32 + n * 8};
        uint64_t systems = b.get(16);
        for (int sid = 0; sid < 16 && !b.bad; ++sid)
        {
            if (!((systems >> sid) & 1)) { continue; }
            const Sys* sys = nullptr;
            for (auto& s : Systems())
            {
                if (s.id == sid) { sys = &s; }
            }
            const uint64_t sats = b.get(64), sigs = b.get(16);
            std::vector<int> sl, pl;
            for (int i = 0; i < 64; ++i)
            {
                if ((sats >> i) & 1) { pl.push_back(i + 1); }
            }
            for (int i = 0; i < 16; ++i)
            {
                if ((sigs >> i) & 1) { sl.push_back(i); }
            }
            std::vector<std::vector<int>> inc(pl.size());
            for (auto& v : inc)
            {
                const uint64_t m = b.get(static_cast<unsigned>(sl.size()));
                for (size_t i = 0; i < sl.size(); ++i)
                {
                    if ((m >> i) & 1) { v.push_back(sl[i]); }
                }
            }
            for (size_t pi = 0; pi < pl.size() && !b.bad; ++pi)
            {
                const bool diff = b.get(1) && four;
                const int id = static_cast<int>(b.get(3));
                int glo = 0;
                if (sid == 1 && !diff) { glo = static_cast<int>(b.get(5)); }
                bool primary = true;
                double pPsr = 0, pDop = 0;
                const size_t first = out.size();
                for (int sg : inc[pi])
                {
                    const bool parity = b.get(1), half = b.get(1);
                    const double cno = static_cast<double>(b.get(11)) * 0.05;
                    const int lb = static_cast<int>(b.get(4)), ps = static_cast<int>(b.get(four ? 4 : 5)), as = static_cast<int>(b.get(four ? 4 : 5));
                    double psr, phr, dop;
                    bool vPsr, vPhr, vDop;
                    const Model::Key key{g.src, sid, pl[pi], sg};
                    const Ref* ref = nullptr;
                    if (diff)
                    {
                        const int64_t rp = b.sget(19), rh = b.sget(16), rd = b.sget(primary ? 18 : 14);
                        const int64_t badDop = primary ? -131072 : -8192;
                        primary = false;
                        if (b.bad) { return false; }
                        auto it = refs.find(key);
                        if (it == refs.end() || it->second.id != id) { continue; } // its reference is missing
                        ref = &it->second;
                        psr = static_cast<double>(rp) * 0.0005 + ref->psr + ref->dopp * frac;
                        phr = static_cast<double>(rh) * 0.0001 + ref->phr + ref->dopp * frac;
                        dop = static_cast<double>(rd) * 0.0001 + ref->dopp;
                        vPsr = rp != -262144;
                        vPhr = rh != -32768;
                        vDop = rd != badDop;
                    }
                    else
                    {
                        const int64_t rp = primary ? static_cast<int64_t>(b.get(37)) : b.sget(20);
                        const int64_t rh = b.sget(23);
                        const int64_t rd = b.sget(four ? (primary ? 26 : 14) : (primary ? 28 : 16));
                        if (b.bad) { return false; }
                        psr = static_cast<double>(rp) * 0.0005 + (primary ? 0 : pPsr);
                        phr = static_cast<double>(rh) * 0.0001 + psr;
                        dop = static_cast<double>(rd) * 0.0001 + (primary ? 0 : pDop);
                        vPsr = rp != (primary ? 137438953471ll : -524288ll);
                        vPhr = rh != -4194304;
                        vDop = rd != -33554432;
                        if (primary)
                        {
                            pPsr = psr;
                            pDop = dop;
                        }
                        primary = false;
                    }
                    const Sig* sig = nullptr;
                    if (sys)
                    {
                        for (auto& q : sys->sigs)
                        {
                            if (q.rc4 == sg) { sig = &q; }
                        }
                    }
                    if (out.size() >= 325) { return false; }
                    Obs o;
                    const int og = ref ? ref->glo : glo;
                    if (!sys || !sig)
                    {
                        if (sid == 1 && og > 20) { return false; }
                        o.tainted = true;
                        taint[g.src] = true; // combinations the tables do not define are not judged, nor what they leave behind
                    }
                    else
                    {
                        const int p = pl[pi];
                        o.prn = sid == 1 ? (p >= 43 ? 0 : p + 37) : sid == 2 ? (p <= 39 ? p + 119 : p >= 54 && p <= 62 ? p + 129 : 0) : sid == 7 ? p + 192 : p;
                        if (four && o.prn == 0 && sid != 1) { return false; }
                        double w = 0;
                        if (!Wavelength(sig->w, og, w)) { return false; }
                        const double nan = std::numeric_limits<double>::quiet_NaN();
                        o.freq = og;
                        o.psr = vPsr ? psr : nan;
                        o.adr = vPhr ? -phr / w : nan;
                        o.dopp = vDop ? -dop / w : nan;
                        o.psrStd = four && ps == 15 ? 5.409 : psrStd[ps];
                        o.adrStd = four ? adrStd4[as] : adrStd5[as];
                        o.cno = cno;
                        o.lock = lock4({g.src, sys->cts, p, sig->cts}, lb, now);
                        const bool l1 = sg == 1 || (sg == 2 && (sid == 6 || sid == 7));
                        o.cts = (l1 ? 4u : 11u) | (vPhr ? 0x400u : 0) | (parity ? 0x800u : 0) | (vPsr ? 0x1000u : 0) | (static_cast<uint32_t>(sys->cts) << 16) |
                                (static_cast<uint32_t>(sig->cts) << 21) | (l1 ? 0x8000000u : 0) | (half ? 0x10000000u : 0);
                    }
                    out.push_back(o);
                    if (!diff && four) { refs[key] = Ref{id, glo, psr, phr, dop}; }
                }
                for (size_t i = first; i < out.size(); ++i)
                {
                    if (inc[pi].size() > 1) { out[i].cts |= 0x100000u; }
                    out[i].grpAny = out.size() - first != inc[pi].size();
                }
            }
        }
        return !b.bad;
    }
};

// ------------------------------------------------------------------ the receiver
struct BitW
{
    std::string s;
    unsigned n = 0;
    void put(uint64_t v, unsigned bits)
    {
        for (unsigned i = 0; i < bits; ++i, ++n)
        {
            if ((n & 7) == 0) { s += '\0'; }
            if ((v >> i) & 1) { s.back() = static_cast<char>(static_cast<unsigned char>(s.back()) | (1u << (n & 7))); }
        }
    }
};
struct Chan
{
    const Sig* sig;
    double lockAt[2];
    bool up = true;
};
struct Sat
{
    const Sys* sys;
    int prn; // as the compressed logs number it
    int glo;
    std::vector<Chan> ch;
};
struct Receiver
{
    std::vector<Sat> sats;
    double now = 0;
    int refId[2] = {0, 0};
    explicit Receiver(Rng& r)
    {
        const int n = static_cast<int>(r.range(1, 6));
        for (int i = 0; i < n; ++i)
        {
            Sat s;
            s.sys = &Systems()[r.below(Systems().size())];
            s.prn = static_cast<int>(r.chance(1, 6) ? 64 : r.range(1, 40));
            if (s.sys->id == 2) { s.prn = static_cast<int>(r.chance(1, 3) ? r.range(54, 62) : r.range(1, 39)); }
            bool dup = false;
            for (auto& o : sats) { dup = dup || (o.sys == s.sys && o.prn == s.prn); }
            if (dup) { continue; }
            s.glo = s.sys->id == 1 ? static_cast<int>(r.below(14)) : 0;
            for (auto& g : s.sys->sigs)
            {
                if (s.ch.empty() || r.chance(1, 2)) { s.ch.push_back(Chan{&g, {0, 0}, true}); }
            }
            sats.push_back(s);
        }
        now = std::floor(static_cast<double>(r.range(1000, 2400))) * kWeek + static_cast<double>(r.chance(1, 3) ? 604800000 - r.range(1, 20000) : r.below(604800) * 1000);
        for (auto& s : sats)
        {
            for (auto& c : s.ch)
            {
                for (auto& l : c.lockAt) { l = now - static_cast<double>(r.pick<int64_t>({0, 10, 500, 3000, 100000, 131000, 3000000})); }
            }
        }
    }
    double lock(const Chan& c, int src) const { return std::max(0.0, now - c.lockAt[src]); }
    static int lockBits(double ms)
    {
        int b = 0;
        while (b < 15 && ms >= 16.0 * (1 << b)) { ++b; }
        return b;
    }
    void signal45(BitW& w, const Chan& c, int src, Rng& r, bool four, bool primary, bool diff)
    {
        w.put(r.below(2), 1);
        w.put(r.below(2), 1);
        w.put(r.below(2048), 11);
        w.put(static_cast<uint64_t>(lockBits(lock(c, src))), 4);
        w.put(r.below(32), four ? 4 : 5);
        w.put(r.below(32), four ? 4 : 5);
        const bool inv = r.chance(1, 12);
        auto val = [&](unsigned n) { return r.chance(1, 8) ? r.pick<uint64_t>({0, 1, (1ull << (n - 1)) - 1, (1ull << n) - 2}) : r.below(1ull << n); };
        if (diff)
        {
            w.put(inv ? 0x40000 : val(19), 19);
            w.put(r.chance(1, 12) ? 0x8000 : val(16), 16);
            w.put(r.chance(1, 12) ? 1u << (primary ? 17 : 13) : val(primary ? 18 : 14), primary ? 18 : 14);
            return;
        }
        if (primary) { w.put(inv ? 0x1FFFFFFFFFull : val(37), 37); }
        else { w.put(inv ? 0x80000 : val(20), 20); }
        w.put(r.chance(1, 12) ? 0x400000 : val(23), 23);
        uint64_t d;
        if (four)
        {
            do { d = primary && r.chance(1, 12) ? 0x2000000 : val(primary ? 26 : 14); } while (!primary && d == 0x2000);
            w.put(d, primary ? 26 : 14);
        }
        else
        {
            do { d = val(primary ? 28 : 16); } while (primary && (d == 0xE000000 || d == 0x8000000));
            if (!primary && d == 0x8000) { d = 1; }
            w.put(d, primary ? 28 : 16);
        }
    }
    std::string emit(int kind, int src, Rng& r)
    {
        std::string o;
        if (kind == 1)
        {
            std::string d;
            uint32_t n = 0;
            for (auto& s : sats)
            {
                for (auto& c : s.ch)
                {
                    if (!c.up) { continue; }
                    ++n;
                    uint32_t cts = static_cast<uint32_t>(r.next()) & 0xF810FFFFu;
                    cts |= static_cast<uint32_t>(s.sys->cts) << 16 | static_cast<uint32_t>(c.sig->cts) << 21;
                    d += wire::Le(cts) + wire::Le<uint64_t>(r.next()) + wire::Le(static_cast<uint32_t>(r.next())) + static_cast<char>(r.below(256)) + static_cast<char>(s.prn);
                    const uint32_t lk = static_cast<uint32_t>(std::min(2097151.0, lock(c, src) / 1000 * 32));
                    d += wire::Le(lk | static_cast<uint32_t>(r.below(32)) << 21 | static_cast<uint32_t>(s.glo) << 26) + wire::Le<uint16_t>(0);
                }
            }
            return wire::Le(n) + d;
        }
        if (kind == 2)
        {
            std::string d;
            for (auto& s : sats)
            {
                std::string g;
                uint64_t n = 0;
                for (auto& c : s.ch)
                {
                    if (!c.up) { continue; }
                    ++n;
                    uint32_t a = static_cast<uint32_t>(r.next()) & 0xFE0000E0u;
                    a |= static_cast<uint32_t>(c.sig->rc2) | static_cast<uint32_t>(std::min(131071.0, lock(c, src))) << 8;
                    g += wire::Le(a) + wire::Le<uint64_t>(r.next());
                }
                const uint64_t comb = (r.next() & 0x0FFFFFFFFFFFFC00ull) | static_cast<uint64_t>(s.glo) | static_cast<uint64_t>(s.sys->id) << 4 | n << 60;
                d += static_cast<char>(r.below(r.chance(1, 6) ? 256 : 32));
                d += static_cast<char>(s.prn);
                d += wire::Le(comb) + g;
            }
            return wire::Le(static_cast<uint32_t>(d.size())) + d;
        }
        const bool four = kind != 5;
        BitW w;
        uint64_t sm = 0;
        for (auto& s : sats) { sm |= 1ull << s.sys->id; }
        w.put(sm, 16);
        const bool whole = std::fmod(now, 1000.0) == 0;
        if (whole) { refId[src] = (refId[src] + 1) % 8; }
        for (auto& sy : Systems())
        {
            if (!((sm >> sy.id) & 1)) { continue; }
            std::vector<Sat*> mine;
            uint64_t pm = 0, gm = 0;
            for (auto& s : sats)
            {
                if (s.sys == &sy)
                {
                    mine.push_back(&s);
                    pm |= 1ull << (s.prn - 1);
                    for (auto& c : s.ch) { gm |= 1ull << c.sig->rc4; }
                }
            }
            std::sort(mine.begin(), mine.end(), [](Sat* a, Sat* b) { return a->prn < b->prn; });
            w.put(pm, 64);
            w.put(gm, 16);
            for (auto* s : mine)
            {
                for (int b = 0; b < 16; ++b)
                {
                    if (!((gm >> b) & 1)) { continue; }
                    bool in = false;
                    for (auto& c : s->ch) { in = in || (c.sig->rc4 == b && c.up); }
                    w.put(in, 1);
                }
            }
            for (auto* s : mine)
            {
                const bool diff = four && (whole ? r.chance(1, 10) : !r.chance(1, 8));
                w.put(diff || (!four && r.chance(1, 2)), 1);
                w.put(static_cast<uint64_t>(r.chance(1, 12) ? r.below(8) : refId[src]), 3);
                if (sy.id == 1 && !diff) { w.put(static_cast<uint64_t>(s->glo), 5); }
                bool primary = true;
                std::vector<Chan*> cs;
                for (auto& c : s->ch) { cs.push_back(&c); }
                std::sort(cs.begin(), cs.end(), [](Chan* a, Chan* b) { return a->sig->rc4 < b->sig->rc4; });
                for (auto* c : cs)
                {
                    if (!c->up) { continue; }
                    signal45(w, *c, src, r, four, primary, diff);
                    primary = false;
                }
            }
        }
        if (r.chance(1, 10)) { w.s += std::string(r.below(5), '\0'); }
        return wire::Le(static_cast<uint32_t>(w.s.size())) + w.s;
    }
    void advance(Rng& r, double dt)
    {
        now += dt;
        for (auto& s : sats)
        {
            for (auto& c : s.ch)
            {
                for (auto& l : c.lockAt)
                {
                    if (r.chance(1, 25)) { l = now - static_cast<double>(r.below(static_cast<uint64_t>(dt) + 1)); } // slip
                }
                if (r.chance(1, 30)) { c.up = !c.up; }
            }
        }
    }
    void restart(Rng& r)
    {
        for (auto& s : sats)
        {
            for (auto& c : s.ch) { c.lockAt[0] = c.lockAt[1] = now; }
        }
        refId[0] = refId[1] = static_cast<int>(r.below(8));
    }
};

const int kIds[6] = {0, 140, 1273, 1734, 2050, 2537};
// op "log": kind, source, form, week, ms, header seed, output format, capacity (0 ample, else input size + n - 1), mark
mdb::Hdr LogHdr(const mdb::Db& db, const Op& o)
{
    Rng r(static_cast<uint64_t>(o.at(5)) * 77 + 5);
    const mdb::Msg* m = db.byId(static_cast<uint16_t>(kIds[o.at(0)]));
    mdb::Hdr h = mdb::RandomHdr(db, *m, r);
    h.type = static_cast<uint8_t>(o.at(1) & 1);
    h.week = static_cast<uint16_t>(o.at(3));
    h.ms = static_cast<uint32_t>(o.at(4));
    return h;
}
std::string LogFrame(const mdb::Db& db, const Op& o, int form)
{
    const mdb::Msg* m = db.byId(static_cast<uint16_t>(kIds[o.at(0)]));
    const mdb::Hdr h = LogHdr(db, o);
    if (form == mdb::F_BIN)
    {
        return wire::Binary(o.b, h.id, h.week, h.ms, h.type, h.port, h.seq, h.idle, h.tstat, h.rxstat, h.crc, h.swver);
    }
    if (form == mdb::F_SBIN) { return wire::BinaryShort(o.b, h.id, h.week, h.ms); }
    mdb::Row none(1);
    if (form == mdb::F_ABB || form == mdb::F_SABB || form == mdb::F_JSON)
    {
        const size_t each = o.at(0) == 1 ? 24 : o.b.size();
        for (size_t p = 4; p < o.b.size(); p += each)
        {
            mdb::Cell cell;
            for (size_t i = p; i < std::min(o.b.size(), p + each); ++i) { cell.e.push_back(static_cast<unsigned char>(o.b[i])); }
            if (o.at(0) == 1) { none[0].rows.push_back({cell}); }
            else { none[0] = cell; }
        }
        return mdb::Message(db, *m, m->latest(), h, none, form);
    }
    const std::string whole = mdb::Message(db, *m, m->latest(), h, none, form);
    std::string text = whole.substr(1, whole.find(';'));
    const uint32_t n = At<uint32_t>(o.b, 0);
    text += std::to_string(n);
    const size_t step = o.at(0) == 1 ? 24 : o.b.size();
    for (size_t p = 4; p < o.b.size(); p += step)
    {
        text += ',';
        for (size_t i = p; i < std::min(o.b.size(), p + step); ++i)
        {
            char b[3];
            std::snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(o.b[i]));
            text += b;
        }
    }
    if (o.b.size() == 4) { text += ','; }
    return form == mdb::F_ASC ? wire::Ascii(text) : wire::AsciiShort(text);
}
// text forms carry a body only if it agrees with its own count
bool TextOk(const Op& o)
{
    if (o.b.size() <= 4) { return false; }
    const size_t n = At<uint32_t>(o.b, 0);
    return o.at(0) == 1 ? o.b.size() == 4 + n * 24 && n <= 325 : o.b.size() == 4 + n;
}
int FormOf(const Op& o)
{
    int f = static_cast<int>(static_cast<uint64_t>(o.at(2)) % 7);
    if (!TextOk(o) && (f == mdb::F_ASC || f == mdb::F_ABB || f == mdb::F_JSON)) { f = mdb::F_BIN; }
    if (!TextOk(o) && (f == mdb::F_SASC || f == mdb::F_SABB)) { f = mdb::F_SBIN; }
    if ((o.b.size() > 255 || !TextOk(o)) && f == mdb::F_SBIN) { f = mdb::F_BIN; } // a short header's length field has one byte
    return f;
}
bool Short(int form) { return form == mdb::F_SBIN || form == mdb::F_SASC || form == mdb::F_SABB; }
bool Close(double a, double b, double rel, double abs)
{
    if (std::isnan(a) || std::isnan(b)) { return std::isnan(a) && std::isnan(b); }
    if (std::isinf(a) || std::isinf(b)) { return a == b; }
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
// compare a binary RANGE body with the reference; empty if equal
std::string Judge(const std::string& body, const std::vector<Obs>& want)
{
    if (body.size() < 4) { return "body of " + std::to_string(body.size()) + " bytes"; }
    const uint32_t n = At<uint32_t>(body, 0);
    if (n != want.size()) { return std::to_string(n) + " observations instead of " + std::to_string(want.size()); }
    if (body.size() != 4 + size_t{n} * 44) { return "body of " + std::to_string(body.size()) + " bytes for " + std::to_string(n) + " observations"; }
    for (uint32_t i = 0; i < n; ++i)
    {
        const Obs& o = want[i];
        if (o.tainted) { continue; }
        const size_t p = 4 + size_t{i} * 44;
        std::string e;
        auto num = [&](const char* what, double got, double exp, double rel, double abs) {
            if (e.empty() && !Close(got, exp, rel, abs)) { e = std::string(what) + " " + std::to_string(got) + " instead of " + std::to_string(exp); }
        };
        num("prn", At<uint16_t>(body, p), o.prn, 0, 0);
        num("glonass frequency", At<uint16_t>(body, p + 2), o.freq, 0, 0);
        num("psr", At<double>(body, p + 4), o.psr, 1e-10, 1e-6);
        num("psr std", At<float>(body, p + 12), o.psrStd, 1e-5, 1e-6);
        num("adr", At<double>(body, p + 16), o.adr, 1e-10, 1e-5);
        num("adr std", At<float>(body, p + 24), o.adrStd, 1e-5, 1e-6);
        num("doppler", At<float>(body, p + 28), o.dopp, 1e-5, 1e-4);
        num("cno", At<float>(body, p + 32), o.cno, 1e-5, 1e-4);
        num("lock time", At<float>(body, p + 36), o.lock, 1e-5, 1e-3);
        const uint32_t cts = At<uint32_t>(body, p + 40), msk = o.grpAny ? ~0x100000u : ~0u;
        if (e.empty() && (cts & msk) != (o.cts & msk))
        {
            char b[80];
            std::snprintf(b, sizeof b, "tracking status %08x instead of %08x", cts, o.cts);
            e = b;
        }
        if (!e.empty()) { return "observation " + std::to_string(i) + ": " + e; }
    }
    return "";
}
ENCODE_FORMAT OutFmt(int64_t f)
{
    static const ENCODE_FORMAT k[] = {ENCODE_FORMAT::UNSPECIFIED, ENCODE_FORMAT::BINARY, ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON, ENCODE_FORMAT::FLATTENED_BINARY};
    return k[f % 6];
}

ENCODE_FORMAT OwnFmt(int form)
{
    switch (form)
    {
    case mdb::F_BIN:
    case mdb::F_SBIN: return ENCODE_FORMAT::BINARY;
    case mdb::F_ASC:
    case mdb::F_SASC: return ENCODE_FORMAT::ASCII;
    case mdb::F_JSON: return ENCODE_FORMAT::JSON;
    default: return ENCODE_FORMAT::ABBREV_ASCII;
    }
}
struct RangeLogs : sim::Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(3));
        t.cfg["parser"] = r.chance(1, 3);
        t.cfg["link"] = static_cast<int64_t>(r.below(1 << 30));
        t.cfg["piece"] = r.pick<int64_t>({1, 7, 100, 2000, 30000});
        Receiver rx(r);
        std::vector<int> kinds;
        for (int k = 1; k <= 5; ++k)
        {
            if (r.chance(2, 5)) { kinds.push_back(k); }
        }
        if (kinds.empty()) { kinds.push_back(4); }
        const int sources = r.chance(1, 2) ? 2 : 1;
        const int formMode = static_cast<int>(r.below(9)); // 0-6 fixed, else mixed
        const std::vector<int64_t> steps = {10, 20, 50, 100, 200, 250, 500, 1000, 1000, 2000, 5000, 10000, 30000, 60000, 3600000};
        const int64_t step = r.pick(steps);
        const bool mixedStep = r.chance(1, 3);
        const int n = static_cast<int>(r.range(2, thorough ? 40 : 20));
        const unsigned pLoss = r.chance(1, 2) ? 6 : 0, pDup = r.chance(1, 3) ? 8 : 0, pSwap = r.chance(1, 3) ? 8 : 0, pBad = r.chance(1, 8) ? 10 : 0;
        const bool caps = r.chance(1, 6);
        std::vector<Op> held; // delayed logs
        for (int e = 0; e < n; ++e)
        {
            for (int k : kinds)
            {
                for (int s = 0; s < sources; ++s)
                {
                    if (r.chance(1, 8)) { continue; }
                    std::string body = rx.emit(k, s, r);
                    int form = formMode < 7 ? formMode : static_cast<int>(r.below(7));
                    if (s == 1 && Short(form)) { --form; } // short headers carry no source
                    const int64_t week = static_cast<int64_t>(rx.now / kWeek), ms = static_cast<int64_t>(std::fmod(rx.now, kWeek));
                    int64_t mark = 0;
                    if (pBad && r.below(100) < pBad)
                    {
                        mark = 3;
                        Corrupt(body, r);
                    }
                    Op o{"log", {k, s, form, week, ms, static_cast<int64_t>(r.below(1 << 30)), static_cast<int64_t>(r.chance(1, 2) ? 0 : r.below(6)), caps && r.chance(1, 3) ? static_cast<int64_t>(r.below(600)) + 1 : 0, mark}, body};
                    if (pLoss && r.below(100) < pLoss * 3)
                    {
                        t.add("lost");
                        continue;
                    }
                    if (pSwap && r.below(100) < pSwap)
                    {
                        o.a[8] = 2;
                        held.push_back(o);
                        continue;
                    }
                    t.ops.push_back(o);
                    if (pDup && r.below(100) < pDup)
                    {
                        o.a[8] = 1;
                        t.ops.push_back(o);
                    }
                }
            }
            while (!held.empty() && r.chance(1, 2))
            {
                t.ops.push_back(held.front());
                held.erase(held.begin());
            }
            if (r.chance(1, 25)) { t.add("reset"); }
            if (r.chance(1, 12)) { t.add("other", RandomNums(r, mdb::F_BIN, {1, 0, 0, 0, 0})); }
            if (r.chance(1, 30)) { rx.restart(r); }
            if (r.chance(1, 60)) { rx.now = std::max(kWeek * 1000, rx.now - static_cast<double>(r.below(5000))); } // clock jumps back
            if (r.chance(1, 60)) { rx.now = std::floor(rx.now / kWeek + 1) * kWeek - static_cast<double>(r.pick<int64_t>({0, 100, 1000, 5000})); }
            rx.advance(r, static_cast<double>(mixedStep ? r.pick(steps) : step));
        }
    }
    static void Corrupt(std::string& body, Rng& r)
    {
        switch (r.below(4))
        {
        case 0: body.resize(r.below(body.size() + 1)); break; // cut
        case 1:
            if (body.size() >= 4) { const uint32_t v = r.pick<uint32_t>({0xFFFFFFFFu, 0x7FFFFFFFu, 400, 326, static_cast<uint32_t>(body.size()), static_cast<uint32_t>(body.size() - 3)}); std::memcpy(body.data(), &v, 4); }
            break;
        case 2:
            if (body.size() >= 5) { const uint32_t v = static_cast<uint32_t>(r.below(body.size() - 4)); std::memcpy(body.data(), &v, 4); }
            break;
        default:
            for (int i = 0; i < 3 && body.size() > 4; ++i) { body[4 + r.below(body.size() - 4)] = static_cast<char>(r.next()); }
        }
    }

    void run(const Trace& t, Ctx& c) override
    {
        auto model = mdb::Make(static_cast<uint64_t>(t.get("db")), mdb::RANGE_MSGS);
        auto db = Lib([&] { return mdb::Load(*model); });
        Model ref;
        uint64_t judged = 0, refd = 0;
        const bool parser = t.get("parser") != 0;
        // a second decompressor that is always given binary logs and asked for binary results
        auto twin = Lib([&] { return std::make_unique<novatel::edie::oem::RangeDecompressor>(db); });
        auto mainD = Lib([&] { return std::make_unique<novatel::edie::oem::RangeDecompressor>(db); });
        std::unique_ptr<ParserFeed> pf;
        Rng link(static_cast<uint64_t>(t.get("link")));
        struct Want
        {
            bool refused;
            bool range;
            bool tainted;
            std::string bytes;
        };
        std::vector<Want> want;
        std::string stream;
        if (parser)
        {
            pf = Lib([&] { return std::make_unique<ParserFeed>(db, ENCODE_FORMAT::BINARY); });
            Lib([&] { pf->p.SetDecompressRangeCmp(true); });
        }
        auto deliver = [&] {
            std::vector<ParserFeed::Item> got;
            for (size_t p = 0; p < stream.size();)
            {
                const size_t n = std::min<size_t>(stream.size() - p, 1 + link.below(static_cast<uint64_t>(t.get("piece", 100))));
                pf->feed(stream.substr(p, n), got, c);
                if (link.chance(1, 3))
                {
                    while (pf->drain(got)) { ++c.calls; }
                }
                p += n;
            }
            while (pf->drain(got)) { ++c.calls; }
            stream.clear();
            c.check(got.size() == want.size(), "C14:parser-count", "the parser delivered " + std::to_string(got.size()) + " results for " + std::to_string(want.size()) + " messages");
            for (size_t i = 0; i < got.size(); ++i)
            {
                c.ev("parser", {got[i].st}, got[i].bytes);
                c.check((got[i].st != static_cast<int>(STATUS::SUCCESS)) == want[i].refused, "C14:parser-status",
                        "message " + std::to_string(i) + ": status " + std::to_string(got[i].st) + (want[i].refused ? " although it must be refused" : ""));
                if (!want[i].refused && !want[i].tainted)
                {
                    c.check(got[i].bytes == want[i].bytes, "C14:parser-bytes", "message " + std::to_string(i) + ": got " + sim::Hex(got[i].bytes).substr(0, 400) + " instead of " + sim::Hex(want[i].bytes).substr(0, 400));
                }
            }
            want.clear();
        };
        for (const Op& o : t.ops)
        {
            ++c.calls;
            if (o.k == "lost") { c.fault("log lost"); }
            else if (o.k == "reset")
            {
                c.fault(parser ? "flush" : "reset");
                ref.reset();
                Lib([&] { twin->Reset(); });
                if (parser)
                {
                    deliver();
                    sim::GuardedBuf b(40000);
                    Lib([&] { return pf->p.Flush(b.data(), static_cast<uint32_t>(b.size())); });
                }
                else { Lib([&] { mainD->Reset(); }); }
                c.ev("reset");
            }
            else if (o.k == "other")
            {
                const Made m = MakeMsg(*model, o);
                if (m.m == nullptr || (m.m->id == 43) || (m.form != mdb::F_BIN)) { continue; }
                bool cmp = false;
                for (int id : kIds) { cmp = cmp || m.m->id == id; }
                if (cmp) { continue; }
                if (parser)
                {
                    const std::string b = Expected(*model, m, mdb::F_BIN);
                    if (b.empty()) { continue; }
                    stream += m.frame;
                    want.push_back({false, false, false, b});
                    continue;
                }
                sim::GuardedBuf b(m.frame.size());
                std::memcpy(b.data(), m.frame.data(), m.frame.size());
                MetaDataStruct md = MetaFor(m.form, m.frame);
                const STATUS st = Lib([&] { return mainD->Decompress(b.data(), static_cast<uint32_t>(b.size()), md); });
                c.ev("other", {static_cast<int64_t>(st)});
                c.check(st != STATUS::SUCCESS && std::memcmp(b.data(), m.frame.data(), m.frame.size()) == 0, "C14:other", "a message that is no range log was decompressed");
            }
            else if (o.k == "log")
            {
                static const char* const marks[] = {nullptr, "log repeated", "log delayed", "log contents damaged"};
                if (o.at(8) > 0 && o.at(8) < 4) { c.fault(marks[o.at(8)]); }
                int form = FormOf(o);
                const bool isShort = Short(form);
                if (parser && form >= mdb::F_ABB) { form = isShort ? mdb::F_SASC : mdb::F_ASC; }
                Log g;
                g.kind = static_cast<int>(o.at(0));
                if (g.kind < 1 || g.kind > 5) { continue; }
                g.src = isShort ? 0 : static_cast<int>(o.at(1) & 1);
                const mdb::Hdr h = LogHdr(*model, o);
                g.week = h.week;
                g.ms = h.ms;
                g.body = o.b;
                std::vector<Obs> obs;
                const bool ok = ref.apply(g, obs);
                c.simBytes += o.b.size();
                static const char* const kn[] = {"", "RANGECMP", "RANGECMP2", "RANGECMP3", "RANGECMP4", "RANGECMP5"};
                c.probe(kn[g.kind]);
                // the twin
                const bool big = isShort && ok && (obs.size() > 5 || ref.taint[g.src]); // the result does not fit a short binary message
                const bool shortTwin = isShort && o.b.size() <= 255 && !big;
                const std::string bin = LogFrame(*model, o, shortTwin ? mdb::F_SBIN : mdb::F_BIN);
                if (big && parser) { form = mdb::F_BIN; }
                Op lo = o;
                if (isShort) { lo.a[1] = 0; }
                std::string tbytes;
                {
                    const std::string f = shortTwin ? bin : LogFrame(*model, lo, mdb::F_BIN);
                    sim::GuardedBuf b(shortTwin ? 60000 : std::max<size_t>(f.size(), 20000));
                    std::memcpy(b.data(), f.data(), f.size());
                    MetaDataStruct md = MetaFor(shortTwin ? mdb::F_SBIN : mdb::F_BIN, f);
                    const STATUS st = Lib([&] { return twin->Decompress(b.data(), static_cast<uint32_t>(b.size()), md, ENCODE_FORMAT::BINARY); });
                    c.check((st == STATUS::SUCCESS) == ok, ok ? "C14:refused" : "C14:accepted", std::string(kn[g.kind]) + " log " + (ok ? "refused" : "accepted") + " with status " + std::to_string(static_cast<int>(st)));
                    if (ok)
                    {
                        c.check(md.uiLength <= b.size() && md.usMessageId == 43, "C14:metadata", "metadata says id " + std::to_string(md.usMessageId) + ", length " + std::to_string(md.uiLength));
                        tbytes.assign(reinterpret_cast<char*>(b.data()), md.uiLength);
                        const size_t hl = shortTwin ? 12 : 28;
                        c.check(tbytes.size() >= hl + 8, "C14:length", "output of " + std::to_string(tbytes.size()) + " bytes");
                        const std::string bad = Judge(tbytes.substr(hl, tbytes.size() - hl - 4), obs);
                        c.check(bad.empty(), "C14:observation", std::string(kn[g.kind]) + " at week " + std::to_string(g.week) + " ms " + std::to_string(g.ms) + " source " + std::to_string(g.src) + ": " + bad);
                        mdb::Hdr rh = h;
                        rh.id = 43;
                        rh.type = isShort ? 0 : h.type;
                        const std::string body = tbytes.substr(hl, tbytes.size() - hl - 4);
                        // the definition CRC in the header is the log's own
                        const std::string e = shortTwin ? wire::BinaryShort(body, 43, h.week, h.ms)
                                                        : wire::Binary(body, 43, h.week, h.ms, rh.type, h.port, h.seq, h.idle, h.tstat, h.rxstat, At<uint16_t>(tbytes, 24), h.swver);
                        c.check(e == tbytes, "C14:header", "RANGE message " + sim::Hex(tbytes.substr(0, 28)) + " instead of " + sim::Hex(e.substr(0, 28)));
                        judged += obs.size();
                        for (auto& x : obs) { refd += x.lock > 0; }
                    }
                    c.ev("twin", {static_cast<int64_t>(st)}, tbytes);
                }
                const std::string frame = LogFrame(*model, lo, form);
                const bool tainted = ref.taint[g.src];
                if (parser)
                {
                    stream += frame;
                    Want w{!ok, true, tainted, ""};
                    if (ok)
                    {
                        Node nd(db);
                        w.bytes = tbytes;
                        if (form == mdb::F_ASC || form == mdb::F_SASC) // the parser keeps the log's own format in between
                        {
                            const int bf = shortTwin ? mdb::F_SBIN : mdb::F_BIN;
                            std::string text;
                            if (form == mdb::F_SASC && !shortTwin) { w.tainted = true; }
                            else
                            {
                                const Out a = nd.convertFresh(tbytes, ENCODE_FORMAT::ASCII, MetaFor(bf, tbytes));
                                const Out b = nd.convertFresh(a.bytes, ENCODE_FORMAT::BINARY, MetaFor(form, a.bytes));
                                w.bytes = b.bytes;
                                if (a.stage != 'D' || b.stage != 'D') { w.tainted = true; }
                            }
                        }
                    }
                    want.push_back(w);
                    continue;
                }
                const bool text = form != mdb::F_BIN && form != mdb::F_SBIN;
                const bool tight = form == mdb::F_BIN && o.at(7) > 0; // other forms need room for their flat form
                const size_t cap = tight ? frame.size() + static_cast<size_t>(o.at(7)) - 1 : std::max<size_t>(60000, frame.size());
                sim::GuardedBuf b(cap);
                std::memcpy(b.data(), frame.data(), frame.size());
                MetaDataStruct md = MetaFor(form, frame);
                const STATUS st = Lib([&] { return mainD->Decompress(b.data(), static_cast<uint32_t>(b.size()), md, OutFmt(o.at(6))); });
                c.ev("main", {static_cast<int64_t>(st), md.uiLength});
                if (tight) { c.fault("tight buffer"); }
                if (!ok)
                {
                    c.check(st != STATUS::SUCCESS, "C14:accepted", std::string(kn[g.kind]) + " log must be refused");
                    continue;
                }
                // what it should be: the twin's message in the requested format
                std::string exp = tbytes;
                const int of = static_cast<int>(o.at(6) % 6);
                const bool toBin = of == 1 || (of == 0 && !text);
                const int bf = shortTwin ? mdb::F_SBIN : mdb::F_BIN;
                bool known = isShort == shortTwin;
                if (!toBin)
                {
                    Node nd(db);
                    const Out x = nd.convertFresh(tbytes, of == 0 ? OwnFmt(form) : OutFmt(of), MetaFor(bf, tbytes), 0, 0, 200000);
                    exp = x.bytes;
                    known = known && x.stage == 'D';
                }
                if (big && !tainted && (of == 1 || of == 0) && (form == mdb::F_SBIN || of == 1))
                {
                    c.check(st == STATUS::UNSUPPORTED, "C14:short-length", "RANGE log of " + std::to_string(obs.size()) + " observations in a short binary message: status " + std::to_string(static_cast<int>(st)));
                    c.probe("too long for a short message");
                    continue;
                }
                if (!known) { continue; }
                if (exp.size() > cap)
                {
                    c.check(st == STATUS::BUFFER_FULL, "C14:buffer", "output of " + std::to_string(exp.size()) + " bytes in a buffer of " + std::to_string(cap) + ": status " + std::to_string(static_cast<int>(st)));
                    c.probe("buffer full");
                    continue;
                }
                if (tight && st == STATUS::BUFFER_FULL && exp.size() + 16 > cap) { continue; } // some working space is allowed for
                c.check(st == STATUS::SUCCESS, "C14:status", std::string(kn[g.kind]) + " as " + mdb::FormName(form) + ": status " + std::to_string(static_cast<int>(st)));
                c.check(md.usMessageId == 43 && md.uiLength <= cap, "C14:metadata", "metadata says id " + std::to_string(md.usMessageId) + ", length " + std::to_string(md.uiLength));
                const std::string got(reinterpret_cast<char*>(b.data()), md.uiLength);
                if (tainted) { continue; }
                c.check(got == exp, "C14:form", std::string(kn[g.kind]) + " as " + mdb::FormName(form) + " to format " + std::to_string(of) + ": got " + sim::Printable(got, 600) + " instead of " + sim::Printable(exp, 600));
                c.mix(got);
            }
        }
        if (parser) { deliver(); }
        c.probe("observations", judged);
        if (judged > 1 && refd > 0) { c.nontrivial = 1; }
    }
};
SIM_SCENARIO("C14", RangeLogs)

// ------------------------------------------------------------------ forged contents
struct RangeForged : sim::Scenario
{
    void gen(Rng& r, Trace& t, bool) override
    {
        t.cfg["db"] = static_cast<int64_t>(r.below(3));
        Receiver rx(r);
        const int n = static_cast<int>(r.range(1, 8));
        for (int e = 0; e < n; ++e)
        {
            const int k = static_cast<int>(r.range(1, 5)), s = static_cast<int>(r.below(2));
            std::string body = r.chance(1, 8) ? wire::RandomBytes(r, r.below(600)) : rx.emit(k, s, r);
            if (r.chance(1, 10)) // a log that claims the whole sky
            {
                body = wire::Le<uint32_t>(20000) + std::string(16, '\xFF') + wire::RandomBytes(r, 20000);
                if (k < 3) { body.resize(9000); }
            }
            if (r.chance(3, 4)) { RangeLogs::Corrupt(body, r); }
            if (r.chance(1, 4)) { RangeLogs::Corrupt(body, r); }
            if (body.size() > 28000) { body.resize(28000); }
            if (r.chance(1, 3) && body.size() >= 4) // make the count agree, so that text forms can carry it
            {
                const uint32_t v = static_cast<uint32_t>(k == 1 ? (body.size() - 4) / 24 : body.size() - 4);
                std::memcpy(body.data(), &v, 4);
                if (k == 1) { body.resize(4 + 24 * v); }
            }
            t.add("log", {k, s, static_cast<int64_t>(r.below(7)), static_cast<int64_t>(rx.now / kWeek), static_cast<int64_t>(std::fmod(rx.now, kWeek)), static_cast<int64_t>(r.below(1 << 30)), static_cast<int64_t>(r.below(6)), static_cast<int64_t>(r.chance(1, 2) ? r.below(100) + 1 : 0), static_cast<int64_t>(r.below(1000))}, body);
            rx.advance(r, static_cast<double>(r.pick<int64_t>({100, 1000, 10000})));
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        auto model = mdb::Make(static_cast<uint64_t>(t.get("db")), mdb::RANGE_MSGS);
        auto db = Lib([&] { return mdb::Load(*model); });
        auto d = Lib([&] { return std::make_unique<novatel::edie::oem::RangeDecompressor>(db); });
        auto pf = Lib([&] { return std::make_unique<ParserFeed>(db, ENCODE_FORMAT::BINARY); });
        Lib([&] { pf->p.SetDecompressRangeCmp(true); });
        for (const Op& o : t.ops)
        {
            if (o.k != "log" || o.at(0) < 1 || o.at(0) > 5) { continue; }
            ++c.calls;
            const int form = FormOf(o);
            const std::string frame = LogFrame(*model, o, form);
            const bool tight = o.at(7) > 0;
            const size_t cap = tight ? frame.size() + static_cast<size_t>(o.at(7)) - 1 : 70000;
            sim::GuardedBuf b(std::max(cap, frame.size()));
            std::memcpy(b.data(), frame.data(), frame.size());
            MetaDataStruct md = MetaFor(form, frame);
            c.fault("forged contents");
            try
            {
                const STATUS st = Lib([&] { return d->Decompress(b.data(), static_cast<uint32_t>(b.size()), md, OutFmt(o.at(6))); });
                c.ev("st", {static_cast<int64_t>(st)});
                c.nontrivial = 1;
                if (st == STATUS::SUCCESS)
                {
                    c.probe("accepted");
                    c.check(md.uiLength <= b.size(), "C20:range-length", "length " + std::to_string(md.uiLength) + " in a buffer of " + std::to_string(b.size()));
                }
                else { c.probe("refused"); }
            }
            catch (const std::exception& e)
            {
                c.fail("C20:range-exception", std::string("Decompress threw ") + e.what());
            }
            // and through the parser
            std::vector<ParserFeed::Item> got;
            pf->feed(frame, got, c);
            while (pf->drain(got)) { ++c.calls; }
            for (auto& g : got) { c.ev("parser", {g.st, g.md.uiLength}); }
        }
    }
};
SIM_SCENARIO("C20-range", RangeForged)
} // namespace
std::vector<std::string> cd::RangeRecording(const mdb::Db& db, uint64_t seed, int epochs)
{
    Rng r(seed * 7 + 3);
    Receiver rx(r);
    std::vector<std::string> v;
    const int kind = 1 + static_cast<int>(r.below(5));
    for (int e = 0; e < epochs; ++e)
    {
        Op o;
        o.k = "log";
        o.b = rx.emit(r.chance(3, 4) ? kind : 1 + static_cast<int>(r.below(5)), static_cast<int>(r.below(2)), r);
        o.a = {kind, static_cast<int64_t>(r.below(2)), static_cast<int64_t>(r.below(6)), 2200, 1000 * e, static_cast<int64_t>(r.below(1000)), 0, 0, 0};
        v.push_back(LogFrame(db, o, FormOf(o)));
        rx.advance(r, 1.0);
    }
    return v;
}
