// The framing world: one framer or framer manager fed by a simulated link.
#pragma once
#include "../core.hpp"
#include "../wire.hpp"

#include "novatel_edie/decoders/common/framer_manager.hpp"
#include "novatel_edie/decoders/oem/framer.hpp"

#include <memory>

namespace fr {
using sim::Ctx;
using sim::Op;
using sim::Rng;
using sim::Trace;
using novatel::edie::HEADER_FORMAT;
using novatel::edie::STATUS;

unsigned FmtBit(HEADER_FORMAT f);

enum Dut
{
    D_OEM,
    D_BIN,
    D_SBIN,
    D_ASC,
    D_SASC,
    D_ABB,
    D_MAN // manager; cfg "man" holds the framer list as decimal digits (1=OEM, 2..6 = staged framers)
};
wire::Grammar GrammarOf(const Trace& t);

struct GetResult
{
    STATUS st{STATUS::FAILURE};
    HEADER_FORMAT fmt{HEADER_FORMAT::UNKNOWN};
    bool response = false;
    uint32_t length = 0;
    std::string bytes; // what the caller finds in its buffer, up to the reported length
    std::string name;  // manager: framer that recognised it
    size_t consumed = 0;
    bool overLength = false; // reported more bytes than the buffer holds
};

class Box
{
  public:
    virtual ~Box() = default;
    virtual size_t write(const std::string& b) = 0;
    virtual GetResult get(size_t bufSize, int metaMode) = 0;
    virtual std::string flush(size_t n, bool& lied) = 0;
    virtual size_t avail() = 0;
    virtual void reset() = 0;
    size_t cap = 0;

  protected:
    // the caller's frame buffer, reused between calls of the same size, with its old contents scrubbed
    unsigned char* out(size_t n)
    {
        if (!out_ || out_->size() != n) { out_ = std::make_unique<sim::GuardedBuf>(n, 0xEE); }
        else { std::memset(out_->data(), 0xEE, std::min(n, dirty_)); }
        dirty_ = 0;
        return out_->data();
    }
    std::unique_ptr<sim::GuardedBuf> out_;
    size_t dirty_ = 0;
};
std::unique_ptr<Box> MakeBox(const Trace& t);

struct Rep
{
    char kind; // 'F' frame, 'U' unknown bytes, 'L' flushed bytes
    unsigned fmt;
    bool response;
    std::string bytes, name;
    uint32_t length;
};
// Adjacent unknown reports are merged: only the division into frames is observable behaviour the properties speak of.
std::vector<Rep> Merge(const std::vector<Rep>& v);
std::string Describe(const Rep& r);

// checks the engine performs while a run proceeds
enum Check : unsigned
{
    K_CONSERVE = 1, // C01
    K_INTACT = 2,   // C03
    K_SIZE = 4,     // C06
    K_NAME = 8,     // C08
};

struct Engine
{
    const Trace& t;
    Ctx& c;
    unsigned checks;
    wire::Grammar g;
    std::unique_ptr<Box> box;
    std::string stream;     // everything the link will deliver
    size_t sent = 0;        // bytes accepted by the component
    size_t epoch = 0;       // stream position where the current epoch began (after a complete flush)
    size_t accounted = 0;   // bytes handed back or consumed
    std::vector<Rep> reps;
    std::vector<std::string> status; // observable history, one entry per call
    bool reportUnknown = true, payloadOnly = false;
    size_t fbuf;
    int meta;
    bool full = false; // BUFFER_FULL reported by the last get

    Engine(const Trace& t, Ctx& c, unsigned checks);
    void fresh() { box = MakeBox(t); }
    size_t buffered() const { return box->cap - box->avail(); }
    bool writeSome(size_t n);
    GetResult getOne(size_t size);
    void drain(size_t size);
    void flush(size_t n);
    void reset();
    void op(const Op& o);
    void schedule();                  // run the trace's schedule operations
    void finish();                    // deliver the rest of the stream and drain
};

std::string StreamOf(const Trace& t);
// Generator pieces
void GenStream(Rng& r, Trace& t, bool thorough, bool damage, bool bigFalseStarts);
void GenSchedule(Rng& r, Trace& t, const std::string& stream, bool gets);
void GenDut(Rng& r, Trace& t, bool managers, bool singles);
void FitCapacity(Rng& r, Trace& t); // pad so every false start resolves, choose a buffer capacity that suffices
} // namespace fr
