// C12: filter decisions against a reference model of the configured rules, over histories of rule changes.
#include "../core.hpp"

#include "novatel_edie/decoders/oem/filter.hpp"

#include <algorithm>
#include <cmath>
#include <set>
#include <tuple>

namespace {
using namespace sim;
using namespace novatel::edie;
using namespace novatel::edie::oem;

struct Model
{
    std::set<int64_t> stat;
    bool invStat = false;
    std::set<std::tuple<int64_t, int64_t, int64_t>> ids;
    bool invId = false;
    std::set<std::tuple<std::string, int64_t, int64_t>> names;
    bool invName = false;
    bool lo = false, hi = false, invTime = false;
    std::pair<int64_t, int64_t> loT{}, hiT{};
    bool dec = false, invDec = false;
    int64_t period = 0;
    bool nmea = false, resp = true, non = true;

    bool admit(const MetaDataStruct& m) const
    {
        if (m.eFormat == HEADER_FORMAT::UNKNOWN) { return false; }
        if (m.eFormat == HEADER_FORMAT::NMEA) { return nmea; }
        if (!(m.bResponse ? resp : non)) { return false; }
        const std::pair<int64_t, int64_t> at{m.usWeek, static_cast<int64_t>(m.dMilliseconds)};
        if (lo || hi)
        {
            bool inside = true;
            if (lo && at < loT) { inside = false; }
            if (hi && at > hiT) { inside = false; }
            if (inside == invTime) { return false; }
        }
        if (!stat.empty() && (stat.count(static_cast<int64_t>(m.eTimeStatus)) != 0) == invStat) { return false; }
        auto listed = [&](const auto& set, auto key) {
            return set.count({key, static_cast<int64_t>(m.eFormat), m.ucSiblingId}) || set.count({key, static_cast<int64_t>(HEADER_FORMAT::ALL), m.ucSiblingId});
        };
        if (!ids.empty() && listed(ids, static_cast<int64_t>(m.usMessageId)) == invId) { return false; }
        if (!names.empty() && listed(names, m.messageName) == invName) { return false; }
        if (dec && period > 0 && (static_cast<int64_t>(m.dMilliseconds) % period == 0) == invDec) { return false; }
        return true;
    }
};

const char* kNames[] = {"BESTPOS", "BESTPOSA", "RANGE", "VERSION", "bestpos", "", "A_VERY_LONG_MESSAGE_NAME_THAT_IS_NOT_INTERNED"};
const int64_t kStat[] = {20, 60, 80, 100, 120, 130, 140, 160, 180, 200, 0};

struct FilterHistory : Scenario
{
    std::vector<int64_t> weeks, mss;
    int64_t Ms(Rng& r) { return r.chance(2, 3) ? mss[r.below(mss.size())] + r.range(-1, 1) : r.range(0, 604799999); }
    void gen(Rng& r, Trace& t, bool thorough) override
    {
        weeks.clear();
        mss.clear();
        const int64_t w0 = r.range(1, 4000);
        for (int i = 0; i < 3; ++i) { weeks.push_back(w0 + i); mss.push_back(r.pick<int64_t>({1001, 500, 2000, 604799998, 1, 161130, 8190, 32300}) + (r.chance(1, 2) ? r.range(0, 300000) : 0)); }
        const int64_t n = r.range(3, thorough ? 90 : 45);
        const unsigned crowded = static_cast<unsigned>(r.range(1, 12));
        for (int64_t i = 0; i < n; ++i)
        {
            if (r.chance(crowded, 16))
            {
                t.add("msg", {static_cast<int64_t>(r.pick<int>({1, 2, 2, 3, 5, 5, 5, 6, 7, 8, 9, 10})), r.chance(1, 5), r.pick(weeks), Ms(r), kStat[r.below(11)], r.range(40, 44), static_cast<int64_t>(r.pick<int>({0, 0, 0, 1, 2, 31}))},
                      kNames[r.below(7)]);
                continue;
            }
            switch (r.below(17))
            {
            case 0: t.add("lower", {r.pick(weeks), Ms(r)}); break;
            case 1: t.add("upper", {r.pick(weeks), Ms(r)}); break;
            case 2: t.add("invtime", {r.chance(1, 2)}); break;
            case 3: t.add("clrtime", {static_cast<int64_t>(r.below(3))}); break;
            case 4: t.add(r.chance(1, 2) ? "decms" : "decs", {r.pick<int64_t>({0, 1, 50, 500, 1000, 1001, 2000, 60000, 1, 10, 100})}); break;
            case 5: t.add("invdec", {r.chance(1, 2)}); break;
            case 6: t.add("clrdec"); break;
            case 7: { std::vector<int64_t> v; for (int64_t k = r.range(0, 3); k >= 0; --k) { v.push_back(kStat[r.below(11)]); } t.add("stat", v); break; }
            case 8: t.add("rmstat", {kStat[r.below(11)]}); break;
            case 9: t.add("invstat", {r.chance(1, 2)}); break;
            case 10: t.add("clrstat"); break;
            case 11: { std::vector<int64_t> v{r.chance(1, 3)}; for (int64_t k = r.range(0, 2); k >= 0; --k) { v.insert(v.end(), {r.range(40, 44), r.pick<int64_t>({11, 11, 2, 5, 6, 9}), r.pick<int64_t>({0, 0, 0, 1, 31})}); } t.add("id", v); break; }
            case 12: t.add(r.chance(2, 3) ? "rmid" : r.chance(1, 2) ? "clrid" : "invid", {r.chance(1, 2) ? r.range(40, 44) : r.range(0, 1), r.pick<int64_t>({11, 11, 2, 5, 6, 9}), r.pick<int64_t>({0, 0, 0, 1, 31})}); break;
            case 13: t.add("name", {r.chance(1, 3), r.pick<int64_t>({11, 11, 2, 5, 6, 9}), r.pick<int64_t>({0, 0, 0, 1, 31})}, kNames[r.below(7)]); break;
            case 14: t.add(r.chance(2, 3) ? "rmname" : r.chance(1, 2) ? "clrname" : "invname", {r.range(0, 1), r.pick<int64_t>({11, 11, 2, 5, 6, 9}), r.pick<int64_t>({0, 0, 0, 1, 31})}, kNames[r.below(7)]); break;
            case 15: t.add("kinds", {static_cast<int64_t>(r.below(3)), r.chance(1, 2)}); break;
            case 16: if (r.chance(1, 3)) { t.add("clearall"); } break;
            }
        }
    }
    void run(const Trace& t, Ctx& c) override
    {
        auto f = Lib([] { return std::make_unique<Filter>(); });
        Model m;
        size_t admitted = 0, refused = 0, changes = 0;
        auto tup = [](const Op& o, size_t i) { return std::make_tuple(o.at(i), o.at(i + 1), o.at(i + 2)); };
        for (const Op& o : t.ops)
        {
            ++c.calls;
            if (o.k == "msg")
            {
                MetaDataStruct md;
                md.eFormat = static_cast<HEADER_FORMAT>(o.at(0));
                md.bResponse = o.at(1) != 0;
                md.usWeek = static_cast<uint16_t>(o.at(2));
                md.dMilliseconds = static_cast<double>(std::max<int64_t>(0, o.at(3)));
                md.eTimeStatus = static_cast<TIME_STATUS>(o.at(4));
                md.usMessageId = static_cast<uint16_t>(o.at(5));
                md.ucSiblingId = static_cast<uint8_t>(o.at(6));
                md.messageName = o.b;
                const bool got = Lib([&] { return f->DoFiltering(md); });
                const bool want = m.admit(md);
                c.ev("judge", {got});
                (got ? admitted : refused)++;
                c.check(got == want, "C12:decision",
                        std::string(got ? "admitted" : "refused") + " against the configured rules: format " + std::to_string(o.at(0)) + " response " + std::to_string(o.at(1)) + " week " +
                            std::to_string(o.at(2)) + " ms " + std::to_string(o.at(3)) + " status " + std::to_string(o.at(4)) + " id " + std::to_string(o.at(5)) + " sibling " +
                            std::to_string(o.at(6)) + " name '" + o.b + "'");
                continue;
            }
            ++changes;
            c.ev(o.k);
            if (o.k == "lower") { Lib([&] { f->SetIncludeLowerTimeBound(static_cast<uint32_t>(o.at(0)), static_cast<double>(std::max<int64_t>(0, o.at(1))) / 1000.0); }); m.lo = true; m.loT = {o.at(0), std::max<int64_t>(0, o.at(1))}; }
            else if (o.k == "upper") { Lib([&] { f->SetIncludeUpperTimeBound(static_cast<uint32_t>(o.at(0)), static_cast<double>(std::max<int64_t>(0, o.at(1))) / 1000.0); }); m.hi = true; m.hiT = {o.at(0), std::max<int64_t>(0, o.at(1))}; }
            else if (o.k == "invtime") { f->InvertTimeFilter(o.at(0) != 0); m.invTime = o.at(0) != 0; }
            else if (o.k == "clrtime")
            {
                Lib([&] { o.at(0) == 0 ? f->ClearLowerTimeBound() : o.at(0) == 1 ? f->ClearUpperTimeBound() : f->ClearTimeBounds(); });
                if (o.at(0) != 1) { m.lo = false; }
                if (o.at(0) != 0) { m.hi = false; }
            }
            else if (o.k == "decms") { Lib([&] { f->SetIncludeDecimationMs(static_cast<uint32_t>(o.at(0))); }); m.dec = true; m.period = o.at(0); }
            else if (o.k == "decs") { Lib([&] { f->SetIncludeDecimation(static_cast<double>(o.at(0)) / 1000.0); }); m.dec = true; m.period = o.at(0); }
            else if (o.k == "invdec") { f->InvertDecimationFilter(o.at(0) != 0); m.invDec = o.at(0) != 0; }
            else if (o.k == "clrdec") { Lib([&] { f->ClearDecimationFilter(); }); m.dec = false; }
            else if (o.k == "stat")
            {
                std::vector<TIME_STATUS> v;
                for (auto x : o.a) { v.push_back(static_cast<TIME_STATUS>(x)); m.stat.insert(x); }
                Lib([&] { if (v.size() == 1) { f->IncludeTimeStatus(v[0]); } else { f->IncludeTimeStatus(v); } });
            }
            else if (o.k == "rmstat") { Lib([&] { f->RemoveTimeStatus(static_cast<TIME_STATUS>(o.at(0))); }); m.stat.erase(o.at(0)); }
            else if (o.k == "invstat") { f->InvertTimeStatusFilter(o.at(0) != 0); m.invStat = o.at(0) != 0; }
            else if (o.k == "clrstat") { Lib([&] { f->ClearTimeStatuses(); }); m.stat.clear(); m.invStat = false; }
            else if (o.k == "id")
            {
                std::vector<std::tuple<uint32_t, HEADER_FORMAT, uint8_t>> v;
                for (size_t i = 1; i + 2 < o.a.size(); i += 3)
                {
                    v.emplace_back(static_cast<uint32_t>(o.at(i)), static_cast<HEADER_FORMAT>(o.at(i + 1)), static_cast<uint8_t>(o.at(i + 2)));
                    m.ids.insert(tup(o, i));
                }
                Lib([&] {
                    if (o.at(0)) { f->IncludeMessageId(v); }
                    else { for (auto& [a, b, s] : v) { f->IncludeMessageId(a, b, s); } }
                });
            }
            else if (o.k == "rmid") { Lib([&] { f->RemoveMessageId(static_cast<uint32_t>(o.at(0)), static_cast<HEADER_FORMAT>(o.at(1)), static_cast<uint8_t>(o.at(2))); }); m.ids.erase(tup(o, 0)); }
            else if (o.k == "invid") { f->InvertMessageIdFilter(o.at(0) == 1); m.invId = o.at(0) == 1; }
            else if (o.k == "clrid") { Lib([&] { f->ClearMessageIds(); }); m.ids.clear(); m.invId = false; }
            else if (o.k == "name")
            {
                std::vector<std::tuple<std::string, HEADER_FORMAT, uint8_t>> v{{o.b, static_cast<HEADER_FORMAT>(o.at(1)), static_cast<uint8_t>(o.at(2))}};
                // the caller's string does not outlive the call
                Lib([&] {
                    std::string tmp = o.b;
                    if (o.at(0)) { f->IncludeMessageName(v); }
                    else { f->IncludeMessageName(tmp, std::get<1>(v[0]), std::get<2>(v[0])); }
                    std::fill(tmp.begin(), tmp.end(), '?');
                });
                m.names.insert({o.b, o.at(1), o.at(2)});
            }
            else if (o.k == "rmname") { Lib([&] { f->RemoveMessageName(o.b, static_cast<HEADER_FORMAT>(o.at(1)), static_cast<uint8_t>(o.at(2))); }); m.names.erase({o.b, o.at(1), o.at(2)}); }
            else if (o.k == "invname") { f->InvertMessageNameFilter(o.at(0) == 1); m.invName = o.at(0) == 1; }
            else if (o.k == "clrname") { Lib([&] { f->ClearMessageNames(); }); m.names.clear(); m.invName = false; }
            else if (o.k == "kinds")
            {
                const bool on = o.at(1) != 0;
                if (o.at(0) == 0) { f->IncludeNmeaMessages(on); m.nmea = on; }
                else if (o.at(0) == 1) { f->IncludeResponses(on); m.resp = on; }
                else { f->IncludeNonResponses(on); m.non = on; }
            }
            else if (o.k == "clearall") { Lib([&] { f->ClearFilters(); }); m = Model(); }
            if (o.k.compare(0, 2, "rm") == 0 || o.k.compare(0, 2, "cl") == 0) { c.probe("rule_removed"); }
        }
        if (admitted) { c.probe("admitted", admitted); }
        if (refused) { c.probe("refused", refused); }
        if (admitted && refused && changes > 1) { c.nontrivial = 1; }
    }
};
SIM_SCENARIO("C12", FilterHistory)
} // namespace
