// Independent description of the NovAtel OEM wire formats: checksums, frame grammar ("leftmost valid frame" reference
// model) and builders. Written from the published format description, shares no code with /repo.
#pragma once
#include <array>
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>

#include "core.hpp"

namespace wire {
// own CRC-32 (reflected 0xEDB88320, initial value 0, no final inversion), bit by bit from a table built here
uint32_t Crc32(std::string_view s, uint32_t c = 0);
uint8_t Xor8(std::string_view s);
std::string HexCrc(uint32_t v, bool upper = false);
template <typename T> std::string Le(T v) { return std::string(reinterpret_cast<const char*>(&v), sizeof v); }

enum Fmt : unsigned
{
    BIN = 1,
    SBIN = 2,
    ASC = 4,
    SASC = 8,
    NMEA = 16,
    ABB = 32,
    JSON = 64,
    PBIN = 128,
    OEM_ALL = BIN | SBIN | ASC | SASC | NMEA | ABB | PBIN
};
const char* FmtName(unsigned f);

struct Grammar
{
    unsigned mask = OEM_ALL;
    bool oemStyle = true; // the combined OEM framer: text formats are 7-bit, abbreviated names start with a letter
};
constexpr size_t kMax = 0x8000;
constexpr size_t kNmeaMax = 256;

enum class Verdict
{
    NO,
    FRAME,
    MORE
};
struct Decision
{
    Verdict v = Verdict::NO;
    unsigned fmt = 0;
    size_t len = 0;  // frame length
    size_t need = 0; // bytes from the candidate's start that had to be seen to decide
    bool response = false;
};
// Is there a frame starting exactly at s[p]?
Decision At(std::string_view s, size_t p, const Grammar& g);

struct Frame
{
    size_t pos, len;
    unsigned fmt;
    bool response;
};
struct Parsed
{
    std::vector<Frame> frames;
    size_t undecided = 0; // first position that cannot be decided yet (== s.size() when everything is decided)
    size_t maxNeed = 0;   // longest look-ahead any decision took
};
Parsed Model(std::string_view s, const Grammar& g);
// Is `f`, on its own, exactly one well-formed message of format fmt with a correct checksum? Empty string if so.
std::string Validate(std::string_view f, unsigned fmt, bool response, const Grammar& g);

// Builders
std::string Binary(std::string_view body, uint16_t id, uint16_t week, uint32_t ms, uint8_t type = 0, uint8_t port = 0x20, uint16_t seq = 0,
                   uint8_t idle = 90, uint8_t tstat = 180, uint32_t rxstat = 0, uint16_t msgCrc = 0, uint16_t swver = 16000, uint8_t sync2 = 0x44);
std::string BinaryShort(std::string_view body, uint16_t id, uint16_t week, uint32_t ms);
std::string Ascii(std::string_view headerAndBody);      // '#' + text + '*' + crc + CRLF
std::string AsciiShort(std::string_view headerAndBody); // '%' ...
std::string Nmea(std::string_view body);                // '$' + body + '*' + xx + CRLF
// Random but well-formed frames with adversarial contents. `kind` is one format bit.
std::string RandomFrame(sim::Rng& r, unsigned kind, size_t maxBody);
std::string RandomText(sim::Rng& r, size_t n, bool withCrlf);
std::string RandomBytes(sim::Rng& r, size_t n);
// Damage a message in a way a real link or disk does. Returns the damaged bytes, `what` names the fault.
std::string Damage(sim::Rng& r, const std::string& m, const std::string& other, std::string& what);
} // namespace wire
