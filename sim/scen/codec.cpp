#include "codec.hpp"

namespace cd {
using sim::Lib;
HEADER_FORMAT HeaderFormatOf(int form)
{
    static const HEADER_FORMAT f[] = {HEADER_FORMAT::BINARY,    HEADER_FORMAT::SHORT_BINARY,    HEADER_FORMAT::ASCII, HEADER_FORMAT::SHORT_ASCII,
                                      HEADER_FORMAT::ABB_ASCII, HEADER_FORMAT::SHORT_ABB_ASCII, HEADER_FORMAT::JSON,  HEADER_FORMAT::BINARY};
    return f[form];
}
bool IsShort(int form) { return form == mdb::F_SBIN || form == mdb::F_SASC || form == mdb::F_SABB; }
std::string Out::show() const
{
    std::string o = std::string("stage ") + stage + " status " + std::string(novatel::edie::StatusToString(static_cast<STATUS>(st)));
    if (!thrown.empty()) { o += " threw " + thrown; }
    if (stage == 'D') { o += " output '" + sim::Printable(bytes, 260) + "'"; }
    return o;
}
MetaDataStruct MetaFor(int form, const std::string& frame, bool response)
{
    MetaDataStruct m;
    m.eFormat = HeaderFormatOf(form);
    m.uiLength = static_cast<uint32_t>(frame.size());
    m.bResponse = response;
    return m;
}

Out Node::convert(const std::string& frame, ENCODE_FORMAT to, IntermediateHeader& ih, CompositeField& cf, MetaDataStruct meta, size_t slack, unsigned char slackFill, size_t outSize)
{
    Out o;
    sim::GuardedBuf in(frame.size() + slack, slackFill);
    std::memcpy(in.data(), frame.data(), frame.size());
    try
    {
        o.st = static_cast<int>(Lib([&] { return hd.Decode(in.data(), ih, meta); }));
        o.ih = ih;
        o.md = meta;
        if (o.st != static_cast<int>(STATUS::SUCCESS)) { return o; }
        o.stage = 'M';
        if (meta.uiHeaderLength > frame.size())
        {
            o.thrown = "header length beyond the message";
            return o;
        }
        o.st = static_cast<int>(Lib([&] { return md.Decode(in.data() + meta.uiHeaderLength, cf, meta); }));
        o.md = meta;
        if (o.st != static_cast<int>(STATUS::SUCCESS)) { return o; }
        o.stage = 'E';
        sim::GuardedBuf out(outSize ? outSize : 65536, 0xEE);
        MessageDataStruct ms;
        unsigned char* p = out.data();
        o.st = static_cast<int>(Lib([&] { return enc.Encode(&p, static_cast<uint32_t>(out.size()), ih, cf, ms, meta.eFormat, to); }));
        if (o.st != static_cast<int>(STATUS::SUCCESS)) { return o; }
        o.stage = 'D';
        if (ms.pucMessage != out.data() || ms.uiMessageLength > out.size())
        {
            o.partsOk = false;
            return o;
        }
        o.bytes.assign(reinterpret_cast<char*>(ms.pucMessage), ms.uiMessageLength);
        auto part = [&](unsigned char* q, uint32_t n, std::string& s) {
            if (q < out.data() || q > out.data() + ms.uiMessageLength || n > static_cast<size_t>(out.data() + ms.uiMessageLength - q)) { o.partsOk = false; }
            else { s.assign(reinterpret_cast<char*>(q), n); }
        };
        part(ms.pucMessageHeader, ms.uiMessageHeaderLength, o.hdr);
        part(ms.pucMessageBody, ms.uiMessageBodyLength, o.body);
    }
    catch (const std::exception& e)
    {
        o.thrown = e.what();
        if (o.thrown.empty()) { o.thrown = "exception"; }
    }
    return o;
}

FramerFeed::FramerFeed(bool json) : buf_(std::make_unique<sim::GuardedBuf>(40000, 0xEE)), md_(std::make_unique<MetaDataStruct>())
{
    if (json) { fr_.SetFrameJson(true); }
}
void FramerFeed::feed(const std::string& piece, std::vector<Framed>& out, bool poll)
{
    size_t off = 0;
    auto drain = [&] {
        for (;;)
        {
            const STATUS st = Lib([&] { return fr_.GetFrame(buf_->data(), static_cast<uint32_t>(buf_->size()), *md_); });
            if (st == STATUS::SUCCESS || (st == STATUS::UNKNOWN && md_->uiLength > 0))
            {
                Framed f;
                f.unknown = st == STATUS::UNKNOWN;
                f.bytes.assign(reinterpret_cast<char*>(buf_->data()), std::min<size_t>(md_->uiLength, buf_->size()));
                f.md = *md_;
                out.push_back(f);
                continue;
            }
            break;
        }
    };
    while (off < piece.size())
    {
        const size_t n = std::min<size_t>(piece.size() - off, fr_.GetAvailableSpace());
        if (n == 0)
        {
            const size_t before = out.size();
            drain();
            if (out.size() == before && fr_.GetAvailableSpace() == 0) { return; }
            continue;
        }
        Lib([&] { return fr_.Write(reinterpret_cast<const unsigned char*>(piece.data()) + off, n); });
        off += n;
    }
    if (poll) { drain(); }
}

ParserFeed::ParserFeed(const DbPtr& db, ENCODE_FORMAT to) : p(db) { p.SetEncodeFormat(to); }
bool ParserFeed::drain(std::vector<Item>& out, bool incomplete)
{
    MessageDataStruct ms;
    MetaDataStruct md;
    const STATUS st = Lib([&] { return p.Read(ms, md, incomplete); });
    if (st == STATUS::BUFFER_EMPTY || st == STATUS::INCOMPLETE) { return false; }
    Item i;
    i.st = static_cast<int>(st);
    i.unknown = st != STATUS::SUCCESS;
    i.md = md;
    if (ms.pucMessage && ms.uiMessageLength <= 4 * novatel::edie::oem::Parser::uiParserInternalBufferSize) { i.bytes.assign(reinterpret_cast<char*>(ms.pucMessage), ms.uiMessageLength); }
    out.push_back(i);
    return true;
}
void ParserFeed::feed(const std::string& piece, std::vector<Item>& out, sim::Ctx& c)
{
    size_t off = 0;
    while (off < piece.size())
    {
        const size_t n = std::min<size_t>(piece.size() - off, p.GetAvailableSpace());
        if (n == 0)
        {
            const size_t before = out.size();
            while (drain(out)) { ++c.calls; }
            if (out.size() == before && p.GetAvailableSpace() == 0) { return; }
            continue;
        }
        Lib([&] { return p.Write(reinterpret_cast<const unsigned char*>(piece.data()) + off, n); });
        off += n;
    }
}
} // namespace cd
