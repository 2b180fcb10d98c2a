// C22: the stream buffer against a reference queue.
#include "../core.hpp"

#include "novatel_edie/common/fixed_buffer.hpp"

#include <algorithm>
#include <array>
#include <deque>

namespace {
using namespace sim;

std::string Pat(Rng& r, size_t n)
{
    // a tiny alphabet makes searches hit, collide and end on prefixes
    static const char* A[] = {"\xAA\x44\x12", "ab", "<\r\n", "\0\xFF\xAA"};
    const size_t k = r.below(4);
    const size_t l = k == 1 ? 2 : 3;
    std::string s;
    for (size_t i = 0; i < n; ++i) { s += r.chance(1, 12) ? static_cast<char>(r.below(256)) : A[k][r.below(l)]; }
    return s;
}

struct BufferHistory : Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        const int64_t cap = r.chance(1, 20) ? r.range(1000, 40000) : r.chance(1, 30) ? 0 : r.range(1, 40);
        t.cfg["cap"] = cap;
        t.cfg["wide"] = r.chance(1, 5);
        const int64_t n = r.range(4, thorough ? 160 : 60);
        for (int64_t i = 0; i < n; ++i)
        {
            switch (r.weighted({10, 8, 3, 5, 5, 4, 3}))
            {
            case 0: {
                const int64_t len = r.chance(1, 8) ? cap + r.range(0, 2) : r.range(0, std::max<int64_t>(1, cap / r.pick({1, 2, 3, 4})));
                if (r.chance(1, 40)) { t.add("null", {len}); }
                else { t.add("write", {}, Pat(r, static_cast<size_t>(len))); }
                break;
            }
            case 1: t.add("erase", {r.chance(1, 6) ? cap + r.range(0, 3) : r.range(0, std::max<int64_t>(1, cap / 2))}); break;
            case 2: t.add("copy", {r.range(0, cap + 2)}); break;
            case 3: t.add("char", {r.range(0, cap + 1), r.chance(1, 3) ? -1 : r.range(0, cap + 1)}, Pat(r, 1)); break;
            case 4: t.add("chars", {r.range(0, cap + 1), r.chance(1, 3) ? -1 : r.range(0, cap + 1)}, Pat(r, r.pick<size_t>({2, 2, 3, 3, 4}))); break;
            case 5: t.add("load", {static_cast<int64_t>(r.below(1000)), r.pick<int64_t>({1, 2, 4, 8})}); break;
            case 6: t.add("poke", {static_cast<int64_t>(r.below(1000)), static_cast<int64_t>(r.below(256))}); break;
            }
        }
    }

    template <typename T> void History(const Trace& t, Ctx& c)
    {
        const size_t cap = static_cast<size_t>(t.get("cap"));
        auto buf = Lib([&] { return std::make_unique<FixedBuffer<T>>(cap); });
        std::deque<T> q;
        auto all = [&] {
            c.check(buf->size() == q.size(), "C22:size", "size() = " + std::to_string(buf->size()) + ", the queue holds " + std::to_string(q.size()));
            c.check(buf->capacity() == cap, "C22:capacity", "capacity changed");
            c.check(buf->available_space() == cap - q.size(), "C22:space", "available_space() = " + std::to_string(buf->available_space()));
            c.check(buf->empty() == q.empty() && buf->full() == (q.size() == cap), "C22:emptyfull", "empty()/full() disagree with the content");
            const FixedBuffer<T>& cb = *buf;
            for (size_t i = 0; i < q.size(); ++i)
            {
                const T v = Lib([&] { return cb[i]; });
                if (!(v == q[i])) { c.fail("C22:content", "element " + std::to_string(i) + " of " + std::to_string(q.size()) + " is not the one written"); }
                if (!(cb.data()[i] == q[i])) { c.fail("C22:content", "data() disagrees at " + std::to_string(i)); }
            }
        };
        size_t wraps = 0, written = 0;
        for (const Op& o : t.ops)
        {
            ++c.calls;
            if (o.k == "write" || o.k == "null")
            {
                std::vector<T> v;
                for (unsigned char ch : o.b) { v.push_back(static_cast<T>(sizeof(T) == 1 ? ch : ch * 0x01010101u)); }
                const size_t n = o.k == "null" ? static_cast<size_t>(o.at(0)) : v.size();
                // an exactly sized source, so that reading past it is seen
                std::unique_ptr<T[]> src(n ? new T[n] : nullptr);
                if (o.k == "write") { std::copy(v.begin(), v.end(), src.get()); }
                const size_t got = Lib([&] { return buf->write(o.k == "null" ? nullptr : src.get(), n); });
                const size_t want = o.k == "null" || n > cap - q.size() ? 0 : n;
                if (want == 0 && n > 0) { c.fault(o.k == "null" ? "null_source" : "write_refused"); }
                c.ev(o.k, {static_cast<int64_t>(n), static_cast<int64_t>(got)});
                c.check(got == want, "C22:write", "write of " + std::to_string(n) + " returned " + std::to_string(got) + ", expected " + std::to_string(want));
                if (want) { q.insert(q.end(), v.begin(), v.end()); written += n; c.simBytes += n; }
                if (written > 2 * cap) { written -= 2 * cap; ++wraps; c.probe("shifted"); }
            }
            else if (o.k == "erase")
            {
                const size_t n = static_cast<size_t>(o.at(0));
                if (n > q.size()) { c.fault("erase_beyond_content"); }
                Lib([&] { buf->erase_begin(n); return 0; });
                q.erase(q.begin(), q.begin() + static_cast<long>(std::min(n, q.size())));
                c.ev("erase", {static_cast<int64_t>(n), static_cast<int64_t>(q.size())});
            }
            else if (o.k == "copy")
            {
                const size_t n = static_cast<size_t>(o.at(0)), m = std::min(n, q.size());
                std::unique_ptr<T[]> dst(new T[m]);
                Lib([&] { buf->copy_out(m ? dst.get() : nullptr, n); return 0; });
                c.ev("copy", {static_cast<int64_t>(n)});
                for (size_t i = 0; i < m; ++i) { c.check(dst[i] == q[i], "C22:copy", "copy_out of " + std::to_string(n) + " differs at " + std::to_string(i)); }
            }
            else if (o.k == "poke" && !q.empty())
            {
                const size_t i = static_cast<size_t>(o.at(0)) % q.size();
                Lib([&] { (*buf)[i] = static_cast<T>(o.at(1)); return 0; });
                q[i] = static_cast<T>(o.at(1));
            }
            else if constexpr (sizeof(T) == 1)
            {
                if (o.k == "char" || o.k == "chars")
                {
                    const size_t start = static_cast<size_t>(o.at(0));
                    const size_t count = o.at(1) < 0 ? FixedBuffer<T>::npos : static_cast<size_t>(o.at(1));
                    size_t want = FixedBuffer<T>::npos;
                    if (start < q.size())
                    {
                        const size_t end = start + std::min(count, q.size() - start);
                        for (size_t i = start; i < end && want == FixedBuffer<T>::npos; ++i)
                        {
                            bool ok = true;
                            for (size_t j = 0; j < o.b.size() && i + j < end; ++j) { ok = ok && q[i + j] == static_cast<unsigned char>(o.b[j]); }
                            if (ok) { want = i; c.probe(i + o.b.size() > end ? "prefix_hit" : "hit"); }
                        }
                    }
                    const size_t got = Lib([&]() -> size_t {
                        auto u = [&](size_t i) { return static_cast<unsigned char>(o.b[i]); };
                        if (o.b.size() == 1) { return buf->search_char(u(0), start, count); }
                        if (o.b.size() == 2) { return buf->search_chars(std::array<unsigned char, 2>{u(0), u(1)}, start, count); }
                        if (o.b.size() == 3) { return buf->search_chars(std::array<unsigned char, 3>{u(0), u(1), u(2)}, start, count); }
                        return buf->search_chars(std::array<unsigned char, 4>{u(0), u(1), u(2), u(3)}, start, count);
                    });
                    c.ev(o.k, {static_cast<int64_t>(start), static_cast<int64_t>(count), static_cast<int64_t>(got)});
                    c.check(got == want, "C22:search", "search for " + Hex(o.b) + " from " + std::to_string(start) + " count " + std::to_string(static_cast<int64_t>(count)) + " returned " +
                                                           std::to_string(static_cast<int64_t>(got)) + ", expected " + std::to_string(static_cast<int64_t>(want)));
                }
                else if (o.k == "load" && q.size() >= static_cast<size_t>(o.at(1)))
                {
                    const size_t w = static_cast<size_t>(o.at(1)), i = static_cast<size_t>(o.at(0)) % (q.size() - w + 1);
                    uint64_t want = 0;
                    for (size_t j = 0; j < w; ++j) { want |= static_cast<uint64_t>(q[i + j]) << (8 * j); }
                    const uint64_t got = Lib([&]() -> uint64_t {
                        const FixedBuffer<T>& b = *buf;
                        return w == 1 ? b.template read_value<uint8_t>(i) : w == 2 ? b.template read_value<uint16_t>(i) : w == 4 ? b.template read_value<uint32_t>(i) : b.template read_value<uint64_t>(i);
                    });
                    c.ev("load", {static_cast<int64_t>(i), static_cast<int64_t>(got)});
                    c.check(got == want, "C22:load", "read_value of " + std::to_string(w) + " at " + std::to_string(i) + " is wrong");
                }
            }
            all();
        }
        if (wraps) { c.nontrivial = 1; }
    }
    void run(const Trace& t, Ctx& c) override { t.get("wide") ? History<uint32_t>(t, c) : History<unsigned char>(t, c); }
};
SIM_SCENARIO("C22", BufferHistory)
} // namespace
