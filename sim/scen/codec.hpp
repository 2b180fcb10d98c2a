// One converting node: the real header decoder, message decoder and encoder, driven message by message.
#pragma once
#include "../core.hpp"
#include "../msgdb.hpp"
#include "../wire.hpp"

#include "novatel_edie/decoders/oem/encoder.hpp"
#include "novatel_edie/decoders/oem/framer.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"
#include "novatel_edie/decoders/oem/message_decoder.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"

#include <memory>
#include <string>

namespace cd {
using novatel::edie::CompositeField;
using novatel::edie::ENCODE_FORMAT;
using novatel::edie::HEADER_FORMAT;
using novatel::edie::MessageDatabase;
using novatel::edie::MessageDataStruct;
using novatel::edie::STATUS;
using novatel::edie::oem::IntermediateHeader;
using novatel::edie::oem::MetaDataStruct;
using DbPtr = std::shared_ptr<MessageDatabase>;

constexpr int E_NONE = -1;
inline ENCODE_FORMAT FormatOf(int form)
{
    switch (form)
    {
    case mdb::F_BIN:
    case mdb::F_SBIN: return ENCODE_FORMAT::BINARY;
    case mdb::F_ASC:
    case mdb::F_SASC: return ENCODE_FORMAT::ASCII;
    case mdb::F_ABB:
    case mdb::F_SABB: return ENCODE_FORMAT::ABBREV_ASCII;
    case mdb::F_JSON: return ENCODE_FORMAT::JSON;
    default: return ENCODE_FORMAT::FLATTENED_BINARY;
    }
}
HEADER_FORMAT HeaderFormatOf(int form);
bool IsShort(int form);

struct Out
{
    char stage = 'H';        // H header decode, M message decode, E encode, D done
    int st = 0;              // STATUS of the last stage
    std::string thrown;      // what() of an exception that left the library
    std::string bytes;       // encoded message (stage D)
    std::string hdr, body;   // parts of it as reported
    bool partsOk = true;     // reported parts lie inside the output and add up to it
    IntermediateHeader ih;
    MetaDataStruct md;
    std::string show() const;
    bool same(const Out& o) const { return stage == o.stage && st == o.st && thrown == o.thrown && bytes == o.bytes && hdr == o.hdr && body == o.body; }
};

struct Node
{
    DbPtr db;
    novatel::edie::oem::HeaderDecoder hd;
    novatel::edie::oem::MessageDecoder md;
    novatel::edie::oem::Encoder enc;
    explicit Node(const DbPtr& d) : db(d), hd(d), md(d), enc(d) {}
    // Convert one framed message. The caller's objects may carry anything from earlier use.
    // slack: bytes of readable memory after the message (their content is 'slackFill')
    Out convert(const std::string& frame, ENCODE_FORMAT to, IntermediateHeader& ih, CompositeField& cf, MetaDataStruct meta, size_t slack = 0, unsigned char slackFill = 0, size_t outSize = 0);
    Out convertFresh(const std::string& frame, ENCODE_FORMAT to, const MetaDataStruct& meta, size_t slack = 0, unsigned char slackFill = 0, size_t outSize = 0)
    {
        IntermediateHeader ih;
        CompositeField cf;
        return convert(frame, to, ih, cf, meta, slack, slackFill, outSize);
    }
};

// Frames of a stream delivered in pieces: each with its metadata as framed
struct Framed
{
    bool unknown = false;
    std::string bytes;
    MetaDataStruct md;
};
class FramerFeed
{
  public:
    explicit FramerFeed(bool json);
    void feed(const std::string& piece, std::vector<Framed>& out, bool poll = true);

  private:
    novatel::edie::oem::Framer fr_;
    std::unique_ptr<sim::GuardedBuf> buf_;
    std::unique_ptr<MetaDataStruct> md_;
};
class ParserFeed
{
  public:
    ParserFeed(const DbPtr& db, ENCODE_FORMAT to);
    novatel::edie::oem::Parser p;
    struct Item
    {
        int st;
        bool unknown;
        std::string bytes;
        MetaDataStruct md;
    };
    void feed(const std::string& piece, std::vector<Item>& out, sim::Ctx& c);
    bool drain(std::vector<Item>& out, bool incomplete = false); // one Read; false: nothing more
};
// metadata as a framer would fill it for a message of this form
MetaDataStruct MetaFor(int form, const std::string& frame, bool response = false);
} // namespace cd
