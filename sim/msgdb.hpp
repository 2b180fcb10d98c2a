// Synthetic message databases and an independent reference codec for the OEM message layouts: binary (aligned,
// counted), ASCII, abbreviated ASCII, JSON and flattened binary. Written from the published layout rules with snprintf
// and byte arithmetic; shares no code with /repo.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

#include "core.hpp"

namespace novatel::edie {
class MessageDatabase;
}

namespace mdb {
enum class K
{
    SIMPLE,
    ENUM,
    FIXED,
    VAR,
    STRING,
    FARR
};
enum class DT
{
    BOOL,
    CHAR,
    UCHAR,
    SHORT,
    USHORT,
    INT,
    UINT,
    LONG,
    ULONG,
    LONGLONG,
    ULONGLONG,
    FLOAT,
    DOUBLE,
    HEXBYTE,
    SATELLITEID
};
const char* DtName(DT t);
struct Fld
{
    K k = K::SIMPLE;
    std::string name;
    DT dt = DT::ULONG;
    unsigned len = 4;   // dataType.length: element size, or row size for field arrays
    std::string conv;   // conversion string with '%'
    int enm = -1;       // index into Db::enums
    unsigned alen = 0;  // maximum (or fixed) element count
    unsigned lfs = 4;   // bytes of the element count in binary
    std::string ref;    // name of the field that carries the element count instead
    std::vector<Fld> sub;
    // parts of conv
    std::string letter() const;
    int width() const;     // -1: none
    int precision() const; // -1: none
    bool isStr() const { return k == K::STRING || letter() == "s"; }
    bool isCsv() const { return !isStr() && letter() != "Z" && letter() != "P"; }
};
using Flds = std::vector<Fld>;
bool HasVar(const Flds& f);
struct Msg
{
    uint16_t id = 0;
    std::string name;
    std::vector<std::pair<uint32_t, Flds>> defs; // (definition CRC, fields); the last one is the latest
    const Flds& latest() const { return defs.back().second; }
    uint32_t latestCrc() const { return defs.back().first; }
    const Flds& byCrc(uint32_t crc) const
    {
        for (auto& d : defs)
        {
            if (d.first == crc) { return d.second; }
        }
        return latest();
    }
};
struct Enm
{
    std::string id, name;
    std::vector<std::pair<uint32_t, std::string>> v;
    std::vector<std::string> desc; // same order; may be shorter
    const std::string* find(uint32_t x) const
    {
        for (auto& p : v)
        {
            if (p.first == x) { return &p.second; }
        }
        return nullptr;
    }
};
struct Db
{
    std::vector<Msg> msgs;
    std::vector<Enm> enums; // [0] Responses [1] Commands [2] PortAddress [3] GPSTimeStatus, then field enumerations
    std::string Json() const;
    const Msg* byId(uint16_t id) const;
    const Msg* byName(const std::string& n) const;
};
// what the synthetic database may contain
enum : unsigned
{
    RANGE_MSGS = 1,    // RANGE, RANGECMP.., for decompression
    RXCONFIG_MSG = 2,  // RXCONFIG and RXCONFIGUSER, as the last two messages
    ODD_LENGTHS = 4,   // row sizes declared as 0 or >= 256
};
std::shared_ptr<const Db> Make(uint64_t seed, unsigned flags = 0);
std::shared_ptr<novatel::edie::MessageDatabase> Load(const Db& db); // parsed by the real JSON reader
void ShareLoads(bool on); // while on, Load of the same definitions gives the same database object
Fld Simple(const std::string& name, DT dt, const std::string& conv);

// ---- values
struct Cell;
using Row = std::vector<Cell>;
struct Cell
{
    std::vector<uint64_t> e; // raw element bits: SIMPLE, ENUM, FIXED, VAR
    std::string s;           // STRING
    std::vector<Row> rows;   // FARR
};
struct BodyOpt
{
    unsigned maxCount = 4;   // elements in variable arrays
    unsigned bigChance = 0;  // 1-in-n chance of a full array (0: never)
    bool text = true;        // values restricted to what text formats carry
};
Row RandomBody(const Db& db, const Flds& f, sim::Rng& r, const BodyOpt& o = {});
size_t DtLen(DT t);

// ---- headers
struct Hdr
{
    uint16_t id = 0;
    uint8_t type = 0; // sibling bits 0-4, response 0x80
    uint8_t port = 0x20;
    uint16_t seq = 0;
    uint8_t idle = 0;
    uint8_t tstat = 20;
    uint16_t week = 0;
    uint32_t ms = 0;
    uint32_t rxstat = 0;
    uint16_t crc = 0;
    uint16_t swver = 0;
};
Hdr RandomHdr(const Db& db, const Msg& m, sim::Rng& r);

// ---- reference codec
std::string EncBin(const Flds& f, const Row& r);
std::string EncFlat(const Flds& f, const Row& r);
std::string EncAscii(const Db& db, const Flds& f, const Row& r);  // with trailing ','
std::string EncAbbrev(const Db& db, const Flds& f, const Row& r, unsigned indents = 1);
std::string EncJson(const Db& db, const Flds& f, const Row& r);
enum Form
{
    F_BIN,
    F_SBIN,
    F_ASC,
    F_SASC,
    F_ABB,
    F_SABB,
    F_JSON,
    F_FLAT,
    F_N
};
const char* FormName(int f);
// whole message as the receiver would send it / the encoder should produce it
std::string Message(const Db& db, const Msg& m, const Flds& f, const Hdr& h, const Row& r, int form);
std::string HdrText(const Db& db, const Msg& m, const Hdr& h, int form); // text formats: with sync for abbreviated only
std::string HdrJson(const Db& db, const Msg& m, const Hdr& h, bool shortForm);
std::string PackedName(const Db& db, uint32_t v); // text of a packed message id (%m)
} // namespace mdb
