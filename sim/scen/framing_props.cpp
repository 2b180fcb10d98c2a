// Scenarios C01-C08: the same world, one oracle each.
#include "framing.hpp"

#include <algorithm>

using namespace fr;
using sim::Scenario;

namespace {
void NonTrivial(Ctx& c, const Engine& e)
{
    size_t frames = 0;
    for (auto& r : e.reps) { frames += r.kind == 'F'; }
    c.nontrivial = frames > 0 && e.status.size() > 3;
}

// ---------------------------------------------------------------- C01
struct Conserve : Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        GenDut(r, t, true, true);
        t.cfg["json"] = r.chance(1, 5);
        t.cfg["report"] = r.chance(5, 6);
        GenStream(r, t, thorough, r.chance(3, 4), true);
        const std::string s = StreamOf(t);
        if (t.get("dut") != D_MAN && r.chance(2, 3)) { t.cfg["cap"] = r.range(1, r.chance(1, 2) ? 200 : 4000); }
        GenSchedule(r, t, s, true);
        // flushes and refused writes at arbitrary moments
        for (int64_t k = r.range(0, 4); k > 0; --k)
        {
            const size_t at = r.below(t.ops.size() + 1);
            Op o{r.chance(1, 2) ? "fl" : "w", {r.chance(1, 2) ? r.range(0, 40) : r.range(0, 6000)}, {}};
            t.ops.insert(t.ops.begin() + at, o);
        }
        if (r.chance(1, 5)) // blocks of about the size of the buffer, while it still holds something
        {
            int64_t cap = RECOMMENDED_FRAME_BUFFER_SIZE;
            if (t.get("dut") != D_MAN && r.chance(4, 5)) { t.cfg["cap"] = cap = r.range(2000, 40000); }
            const size_t at = r.below(t.ops.size() + 1);
            const int64_t big = cap + r.range(0, cap / 2);
            for (int64_t left = big; left > 0; left -= 200000) { t.add("pad", {std::min<int64_t>(left, 200000)}); }
            std::vector<Op> w;
            for (int64_t k = r.range(2, 7); k > 0; --k)
            {
                if (r.chance(1, 4)) { w.push_back(Op{"fl", {r.range(0, cap)}, {}}); }
                w.push_back(Op{"w", {r.chance(1, 2) ? r.range(cap / 8, cap) : r.range(1, cap / 2)}, {}});
            }
            t.ops.insert(t.ops.begin() + at, w.begin(), w.end());
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        Engine e(t, c, K_CONSERVE);
        e.schedule();
        e.finish();
        // whatever is still held back comes out of a flush, complete and in order
        e.flush(e.buffered() + 7);
        c.check(e.accounted == e.sent, "C01:lost", std::to_string(e.sent) + " bytes were accepted, " + std::to_string(e.accounted) + " came back");
        c.check(e.buffered() == 0, "C01:lost", "bytes remain after a complete flush");
        NonTrivial(c, e);
    }
};
SIM_SCENARIO("C01", Conserve)

// ---------------------------------------------------------------- C02
struct Chunking : Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        GenDut(r, t, true, true);
        t.cfg["json"] = r.chance(1, 8);
        GenStream(r, t, thorough, r.chance(2, 3), r.chance(1, 20));
        if (r.chance(1, 60)) // longer than any message may be
        {
            t.add("seg", {0, 1}, r.pick({"#", "%", "<A\r\n< ", "<ABC"}) + std::string(r.chance(1, 2) ? r.range(32000, 32700) : r.range(32800, 33500), 'y') + r.pick({"*00000000\r\n", "\r\n", "\r\n< \r\n"}));
        }
        FitCapacity(r, t);
        GenSchedule(r, t, StreamOf(t), true);
    }
    void run(const Trace& t, Ctx& c) override
    {
        Engine a(t, c, 0);
        a.schedule();
        a.finish();
        // reference delivery: everything in pieces as large as the component takes, fresh metadata object per call
        Trace ref = t;
        ref.ops.erase(std::remove_if(ref.ops.begin(), ref.ops.end(), [](const Op& o) { return o.k != "seg" && o.k != "pad"; }), ref.ops.end());
        ref.cfg["meta"] = 0;
        ref.cfg["cap"] = RECOMMENDED_FRAME_BUFFER_SIZE;
        Engine b(ref, c, 0);
        b.writeSome(b.stream.size());
        b.finish();
        auto x = Merge(a.reps), y = Merge(b.reps);
        // the tail (bytes still undecided) may be divided differently; frames and what lies between them may not
        while (!x.empty() && x.back().kind != 'F') { x.pop_back(); }
        while (!y.empty() && y.back().kind != 'F') { y.pop_back(); }
        for (size_t i = 0; i < std::max(x.size(), y.size()); ++i)
        {
            const std::string p = i < x.size() ? Describe(x[i]) : "nothing", q = i < y.size() ? Describe(y[i]) : "nothing";
            c.check(i < x.size() && i < y.size() && x[i].kind == y[i].kind && x[i].fmt == y[i].fmt && x[i].response == y[i].response &&
                        x[i].bytes == y[i].bytes && x[i].length == y[i].length,
                    "C02:chunking", "report " + std::to_string(i) + " depends on the delivery: in pieces " + p + ", at once " + q);
        }
        NonTrivial(c, a);
    }
};
SIM_SCENARIO("C02", Chunking)

// ---------------------------------------------------------------- C03
struct Intact : Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        GenDut(r, t, true, true);
        t.cfg["json"] = r.chance(1, 8);
        if (t.get("dut") == D_OEM && r.chance(1, 12)) { t.cfg["payload"] = 1; }
        GenStream(r, t, thorough, true, true);
        if (t.get("dut") != D_MAN && r.chance(1, 2)) { t.cfg["cap"] = r.range(30, r.chance(1, 2) ? 300 : 4000); }
        GenSchedule(r, t, StreamOf(t), true);
        for (int64_t k = r.range(0, 2); k > 0; --k)
        {
            t.ops.insert(t.ops.begin() + r.below(t.ops.size() + 1), Op{"fl", {r.chance(1, 2) ? r.range(0, 40) : r.range(0, 6000)}, {}});
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        Engine e(t, c, K_INTACT);
        e.schedule();
        e.finish();
        if (e.payloadOnly)
        {
            // with the payload option, a binary frame is exactly the payload of an intact message of the stream
            std::string s = e.stream;
            wire::Parsed p = wire::Model(s, e.g);
            for (auto& f : e.reps)
            {
                if (f.kind != 'F' || !(f.fmt & (wire::BIN | wire::SBIN | wire::PBIN))) { continue; }
                bool ok = false;
                for (size_t q = 0; q < s.size() && !ok; ++q)
                {
                    if (s[q] != '\xAA') { continue; }
                    wire::Decision d = wire::At(s, q, e.g);
                    const size_t h = d.fmt == wire::SBIN ? 12 : 28;
                    ok = d.v == wire::Verdict::FRAME && d.fmt == f.fmt && s.substr(q + h, d.len - h - 4) == f.bytes;
                }
                c.check(ok, "C03:payload", "a payload was reported that no intact message carries: [" + sim::Printable(f.bytes) + "]");
            }
        }
        NonTrivial(c, e);
    }
};
SIM_SCENARIO("C03", Intact)

// ---------------------------------------------------------------- C04
struct Resync : Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        GenDut(r, t, true, true);
        t.cfg["json"] = 0;
        GenStream(r, t, thorough, true, r.chance(1, 20));
        FitCapacity(r, t);
        GenSchedule(r, t, StreamOf(t), true);
    }
    void run(const Trace& t, Ctx& c) override
    {
        Engine e(t, c, 0);
        e.schedule();
        e.finish();
        // expected: the leftmost valid frames of the stream
        wire::Parsed p = wire::Model(e.stream, e.g);
        std::vector<Rep> got;
        for (auto& r : e.reps)
        {
            if (r.kind == 'F') { got.push_back(r); }
        }
        size_t k = 0;
        for (size_t i = 0; i < p.frames.size(); ++i)
        {
            const std::string want = e.stream.substr(p.frames[i].pos, p.frames[i].len);
            c.check(k < got.size() && got[k].bytes == want && got[k].fmt == p.frames[i].fmt && got[k].response == p.frames[i].response, "C04:lost",
                    "undamaged message " + std::to_string(i) + " at offset " + std::to_string(p.frames[i].pos) + " (" + wire::FmtName(p.frames[i].fmt) + " [" +
                        sim::Printable(want, 160) + "]) was not reported; the next report was " + (k < got.size() ? Describe(got[k]) : std::string("nothing")));
            ++k;
        }
        c.check(k == got.size(), "C04:extra", "an additional frame was reported: " + (k < got.size() ? Describe(got[k]) : std::string()));
        NonTrivial(c, e);
    }
};
SIM_SCENARIO("C04", Resync)

// ---------------------------------------------------------------- C05 (framers)
struct Progress : Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        GenDut(r, t, true, true);
        t.cfg["json"] = r.chance(1, 4);
        t.cfg["report"] = r.chance(3, 4);
        t.cfg["fbuf"] = r.pick({1, 2, 3, 12, 64, 300, 4096, 32768, 65536, 262144});
        GenStream(r, t, thorough, true, true);
        if (r.chance(1, 12)) // a long run of one hostile byte or line
        {
            const std::string unit = r.pick({"#", "$", "<", "{", "\xAA", "*", "<A\r\n", "< \r\n", "#*", "$*", "\r\n", "<A\r\n< ", "{}"});
            std::string s;
            const size_t n = static_cast<size_t>(r.pick({1500, 3000, 33000, thorough ? 40000 : 33400}));
            while (s.size() < n) { s += unit; }
            t.add("seg", {0, 11}, s);
        }
        GenSchedule(r, t, StreamOf(t), true);
        if (r.chance(1, 16)) // something that looks like the start of a message and never ends, longer than the internal buffer
        {
            const bool man = t.get("dut") == D_MAN;
            if (!man) { t.cfg["cap"] = 70000; }
            const std::string head = r.pick({"#", "%", "$", "<", "{", "#BESTPOSA,COM1;", "%TIMESA,", "$GP", "<BESTPOS COM1 0\r\n", "<A\r\n<     ", "{\"header\": {", "[", "<OK",
                                             "#RXCONFIGA;#", "<ERROR:"});
            // (no unit can itself start a message: each one would cost another full candidate, a bounded but very long run)
            const std::string unit = r.pick({"x", "a,", " ", "0", "9,8;", "line\r\n", "}", "\"", "*", ";", "*1234567", "*12345678"});
            t.add("long", {man ? 280000 : 76000}, head + '\0' + unit);
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        Engine e(t, c, 0);
        for (const Op& o : t.ops)
        {
            if (o.k != "long" || o.b.empty()) { continue; }
            const Op* l = &o;
            // the schedule covers what precedes it
            const size_t z = std::min(l->b.find('\0'), l->b.size() - 1);
            std::string s = l->b.substr(0, z);
            const std::string unit = l->b.substr(z + 1).empty() ? "x" : l->b.substr(z + 1);
            const size_t n = s.size() + static_cast<size_t>(l->at(0));
            while (s.size() < n) { s += unit; }
            e.stream += s;
            c.fault("endless_candidate");
        }
        e.schedule();
        // keep delivering: the stream must not be refused forever as long as the caller drains (and, told that its own
        // buffer is too small, offers a larger one)
        size_t stuck = 0;
        while (e.sent < e.stream.size() || stuck == 0)
        {
            const size_t s = e.sent, a = e.accounted;
            const size_t n = std::min<size_t>(e.stream.size() - e.sent, std::max<size_t>(1, std::min<size_t>(e.box->avail(), 4096)));
            e.writeSome(n);
            e.drain(e.fbuf);
            if (e.full) { e.drain(RECOMMENDED_FRAME_BUFFER_SIZE + 16); }
            if (e.sent == s && e.accounted == a)
            {
                if (e.sent >= e.stream.size()) { break; }
                c.check(false, "C05:refused", "the stream is refused forever although the caller keeps draining; " + std::to_string(e.buffered()) +
                                                     " bytes are buffered, next [" + sim::Printable(std::string_view(e.stream).substr(e.accounted, 60)) + "]");
                break;
            }
        }
        NonTrivial(c, e);
    }
};
SIM_SCENARIO("C05-framing", Progress)

// ---------------------------------------------------------------- C06
struct Sizes : Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        GenDut(r, t, true, true);
        t.cfg["json"] = r.chance(1, 6);
        t.cfg["report"] = r.chance(3, 4);
        if (t.get("dut") == D_OEM && r.chance(1, 8)) { t.cfg["payload"] = 1; }
        GenStream(r, t, thorough, r.chance(1, 2), true);
        std::vector<size_t> lens;
        for (auto& o : t.ops)
        {
            if (o.k == "seg") { lens.push_back(o.b.size()); }
        }
        GenSchedule(r, t, StreamOf(t), false);
        // reads with buffers of every awkward size
        std::vector<Op> out;
        for (auto& o : t.ops)
        {
            out.push_back(o);
            if (o.k == "w")
            {
                for (int64_t k = r.range(0, 3); k > 0; --k)
                {
                    int64_t n = r.pick({int64_t(0), int64_t(1), int64_t(2), int64_t(3), int64_t(4), r.range(0, 16), r.range(0, 300), int64_t(255), int64_t(256), int64_t(257)});
                    if (!lens.empty() && r.chance(1, 2)) { n = std::max<int64_t>(0, static_cast<int64_t>(r.pick(lens)) + r.range(-2, 2)); }
                    out.push_back(Op{"gs", {n}, {}});
                }
            }
        }
        t.ops = out;
    }
    void run(const Trace& t, Ctx& c) override
    {
        Engine e(t, c, K_SIZE);
        e.schedule();
        e.finish();
        // what did not fit before is intact now: frames equal those a large buffer gets
        if (!e.payloadOnly && e.reportUnknown)
        {
            Trace big = t;
            big.ops.erase(std::remove_if(big.ops.begin(), big.ops.end(), [](const Op& o) { return o.k == "gs"; }), big.ops.end());
            Engine b(big, c, 0);
            b.schedule();
            b.finish();
            auto x = Merge(e.reps), y = Merge(b.reps);
            while (!x.empty() && x.back().kind != 'F') { x.pop_back(); }
            while (!y.empty() && y.back().kind != 'F') { y.pop_back(); }
            for (size_t i = 0; i < std::max(x.size(), y.size()); ++i)
            {
                c.check(i < x.size() && i < y.size() && x[i].kind == y[i].kind && x[i].fmt == y[i].fmt && x[i].bytes == y[i].bytes, "C06:changed",
                        "offering small buffers first changed report " + std::to_string(i) + ": " + (i < x.size() ? Describe(x[i]) : "nothing") +
                            " instead of " + (i < y.size() ? Describe(y[i]) : "nothing"));
            }
        }
        NonTrivial(c, e);
    }
};
SIM_SCENARIO("C06-framing", Sizes)

// ---------------------------------------------------------------- C07
struct Fresh : Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        GenDut(r, t, true, true);
        t.cfg["json"] = r.chance(1, 6);
        if (t.get("meta") == 0) { t.cfg["meta"] = 1; }
        GenStream(r, t, thorough, r.chance(3, 4), true);
        if (t.get("dut") != D_MAN && r.chance(1, 3)) { t.cfg["cap"] = r.range(40, 4000); }
        GenSchedule(r, t, StreamOf(t), true);
        for (int64_t k = r.range(1, 4); k > 0; --k)
        {
            const size_t at = r.below(t.ops.size() + 1);
            t.ops.insert(t.ops.begin() + at, r.chance(1, 3) ? Op{"rst", {}, {}} : Op{"fl", {r.chance(1, 2) ? r.range(1, 40) : 300000}, {}});
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        // Subject: one instance through everything. Twin: recreated at every flush/reset from the bytes still buffered.
        Engine a(t, c, K_CONSERVE);
        Engine b(t, c, 0);
        bool switched = false;
        size_t done = 0;
        auto compare = [&](const char* when) {
            if (!switched) { return; }
            const size_t n = std::max(a.status.size(), b.status.size());
            for (; done < n; ++done)
            {
                const size_t i = done;
                c.check(i < a.status.size() && i < b.status.size() && a.status[i] == b.status[i], "C07:not-fresh",
                        std::string("after a flush or reset the component differs from a new one ") + when + ": " +
                            (i < a.status.size() ? sim::Printable(a.status[i]) : "nothing") + " instead of " +
                            (i < b.status.size() ? sim::Printable(b.status[i]) : "nothing"));
            }
        };
        for (auto& o : t.ops)
        {
            if (o.k == "seg" || o.k == "pad") { a.op(o); continue; }
            if (o.k == "fl" || o.k == "rst")
            {
                a.op(o);
                if (o.k == "fl" && o.at(0) <= 0) { continue; }
                if (o.k == "fl" && a.status.back() == "f") { /* nothing was flushed, nothing had to change */ }
                // twin: a new component holding the same unconsumed bytes
                b.fresh();
                const std::string rest = a.stream.substr(a.accounted, a.buffered());
                if (!rest.empty() && b.box->write(rest) != rest.size()) { c.fail("C07:twin", "a new component refuses the bytes the old one held"); }
                b.sent = a.sent;
                b.accounted = a.accounted;
                a.status.clear();
                b.status.clear();
                done = 0;
                switched = true;
                continue;
            }
            a.op(o);
            if (switched) { b.op(o); }
            compare("in an operation");
        }
        a.finish();
        if (switched)
        {
            b.finish();
            compare("while draining");
            c.probe("compared_after_flush_or_reset");
        }
        // repeated flushing empties the component
        for (size_t i = 0; a.buffered() > 0; ++i)
        {
            const size_t have = a.buffered();
            a.flush(i < 3 ? 97 : 5000);
            c.check(a.buffered() < have && i < 5000, "C07:flush-stuck", "flushing does not empty the component");
        }
        NonTrivial(c, a);
    }
};
SIM_SCENARIO("C07-framing", Fresh)

// ---------------------------------------------------------------- C08
struct Agree : Scenario
{
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        GenDut(r, t, true, false);
        GenStream(r, t, thorough, r.chance(2, 3), r.chance(1, 20));
        FitCapacity(r, t);
        GenSchedule(r, t, StreamOf(t), true);
    }
    void run(const Trace& t, Ctx& c) override
    {
        Engine e(t, c, K_NAME);
        e.schedule();
        e.finish();
        auto x = Merge(e.reps);
        // against the reference: leftmost valid frames of the union of the selected formats, everything else unknown
        wire::Parsed p = wire::Model(e.stream, e.g);
        size_t pos = 0, fi = 0;
        for (auto& r : x)
        {
            if (r.kind == 'F')
            {
                c.check(fi < p.frames.size() && p.frames[fi].pos == pos && p.frames[fi].len == r.bytes.size() && p.frames[fi].fmt == r.fmt, "C08:frames",
                        "at offset " + std::to_string(pos) + " the manager reported " + Describe(r) + "; expected the next frame " +
                            (fi < p.frames.size() ? std::string(wire::FmtName(p.frames[fi].fmt)) + " at offset " + std::to_string(p.frames[fi].pos) + " length " +
                                                        std::to_string(p.frames[fi].len)
                                                  : "nowhere"));
                ++fi;
            }
            c.check(e.stream.compare(pos, r.bytes.size(), r.bytes) == 0, "C08:bytes", "the manager reported bytes that are not the next ones of the stream: " + Describe(r));
            pos += r.length;
        }
        c.check(fi == p.frames.size(), "C08:missed",
                "the manager never reported the " + (fi < p.frames.size() ? std::string(wire::FmtName(p.frames[fi].fmt)) : std::string()) + " message at offset " +
                    (fi < p.frames.size() ? std::to_string(p.frames[fi].pos) : std::string()));
        // selecting in another order changes nothing
        Trace rev = t;
        int64_t m = 0;
        for (int64_t q = t.get("man"); q; q /= 10) { m = m * 10 + q % 10; }
        rev.cfg["man"] = m;
        Engine o(rev, c, 0);
        o.schedule();
        o.finish();
        auto y = Merge(o.reps);
        c.check(x.size() == y.size(), "C08:order", "the number of reports depends on the order of selection");
        for (size_t i = 0; i < x.size(); ++i)
        {
            c.check(x[i].bytes == y[i].bytes && x[i].kind == y[i].kind && x[i].name == y[i].name, "C08:order",
                    "report " + std::to_string(i) + " depends on the order of selection: " + Describe(x[i]) + " or " + Describe(y[i]));
        }
        NonTrivial(c, e);
    }
};
SIM_SCENARIO("C08", Agree)
} // namespace
