// Messages for the codec scenarios: well-formed, responses, hostile (well-framed, but lying about their contents) and
// damaged. Everything is a function of the operation's numbers, so traces stay small and self-contained.
#pragma once
#include "codec.hpp"

namespace cd {
enum Kind
{
    K_VALID,
    K_BIG,
    K_RESPONSE,
    K_HOSTILE, // contents mutated, then length and checksum made right again
    K_DAMAGED, // contents mutated, checksum left alone
    K_FEWER,   // of an older revision: the last fields are not there
    K_MORE,    // of a newer revision: there are more fields than defined
    K_RAW,     // strings with characters no text format but JSON can carry
    K_N
};
struct Made
{
    std::string frame;
    int form = 0;
    bool response = false;
    bool valid = false;
    bool revised = false;
    bool raw = false; // for binary and JSON only
    const mdb::Msg* m = nullptr;
    const mdb::Flds* f = nullptr;
    mdb::Hdr h;
    mdb::Row row;
    std::string respText;
    int32_t respId = 0;
};
// numbers: message, definition, value seed, form, kind, mutation seed
struct MsgNums
{
    int64_t msg, def, seed, form, kind, kseed;
};
std::vector<int64_t> RandomNums(sim::Rng& r, int form, const std::vector<unsigned>& kindWeights);
Made MakeMsg(const mdb::Db& db, const sim::Op& o, size_t first = 0);
// the same message as the encoder should produce it in another form ("" if it cannot carry it)
std::string Expected(const mdb::Db& db, const Made& m, int form);
std::string Hostile(const std::string& frame, int form, sim::Rng& r, int rounds);
std::string Reseal(const std::string& frame, int form); // correct length and checksum
// what the real framer makes of it (first frame), as a decoder would get it
bool FrameIt(const std::string& bytes, int form, Framed& out);
// a textual rendering of every value of a decoded message, read through its public accessors
std::string Dump(const CompositeField& cf);
std::string DumpHdr(const IntermediateHeader& ih);
std::string DumpMeta(const MetaDataStruct& m);
// a receiver-configuration log of a database with mdb::RXCONFIG_MSG (some of them hurt); form: mdb::F_BIN, F_ASC, F_ABB
std::string RxFrame(const mdb::Db& db, int form, uint64_t seed);
// a recording of compressed observations of a database with mdb::RANGE_MSGS
std::vector<std::string> RangeRecording(const mdb::Db& db, uint64_t seed, int epochs);
} // namespace cd
