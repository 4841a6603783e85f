// Contracts of oem::Framer, the framer behind Parser: one state machine for all formats that looks at one byte at a time.
#include "anybuf.h"
#include "fbcontracts.h"
#include <charconv>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <unordered_map>
#define private public
#define protected public
#include "novatel_edie/decoders/oem/framer.hpp"
#include "novatel_edie/decoders/common/framer_manager.hpp"
#undef private
#undef protected
#include "src/decoders/common/src/framer.cpp"
#include "src/decoders/common/src/framer_manager.cpp"
#include "src/decoders/oem/src/framer.cpp"
#include "nolog.h"
#include "framerlib.h"

using NS = NovAtelFrameState;
using HF = HEADER_FORMAT;

// both alternatives evaluated: fewer paths
template <class T> inline T pick(bool c, T x, T y) { return c ? x : y; }

static const Framer* vc_framer;
static const B* vc_data;
static uint64_t vc_size;
// Contract of CalculateCharacterCrc32 (C02, C03): when the register is the CRC of a piece of text, the CRC of the piece and one more byte.
// Stated for the pieces the framer computes: from the first or the second byte of the buffer to the byte before the one just read.
extern "C" void vcc_char_crc(uint32_t& c, B b)
{
    uint32_t r = static_cast<uint32_t>(__vc_any64());
    uint64_t n = vc_framer->uiMyByteCount; // bytes read
    bool ok = (n >= 1) & (n <= vc_size);
    uint64_t pos = pick<uint64_t>(ok, n - 1, 0);
    bool hit = ok & (__vc_peek8(vc_data + pos) == b);
    __vc_assume(!hit | (c != crc(vc_data, pos)) | (r == crc(vc_data, pick<uint64_t>(ok, pos + 1, 0))));
    uint64_t p1 = pick<uint64_t>(pos >= 1, pos - 1, 0);
    hit &= pos >= 1;
    __vc_assume(!hit | (c != crc(vc_data + hit, pick<uint64_t>(hit, p1, 0))) | (r == crc(vc_data + hit, pick<uint64_t>(hit, pos, 0))));
    c = r;
}

struct Frm
{
    AnyFramer<Framer> a;
    MetaDataStruct* md;
    uint64_t j, t; // arbitrary positions
    bool v0; // a valid binary message is at the front
    bool ascii; // an ASCII message is at the front, t is its terminator

    B at(uint64_t i) const { return a.at(i); }
    NS st() const { return a.f->eMyFrameState; }
    bool is(NS s) const { return st() == s; }
    uint64_t cnt() const { return a.f->uiMyByteCount; }
    HF fmt() const { return md->eFormat; }
    bool ascii_fmt() const { return (fmt() >= HF::ASCII) & (fmt() <= HF::JSON); }
    bool binary() const { return bstate() & !is(NS::WAITING_FOR_BINARY_SYNC2); }
    bool bstate() const
    {
        return is(NS::WAITING_FOR_BINARY_SYNC2) | is(NS::WAITING_FOR_BINARY_SYNC3) | is(NS::WAITING_FOR_BINARY_HEADER) | is(NS::WAITING_FOR_SHORT_BINARY_HEADER) |
               is(NS::WAITING_FOR_BINARY_BODY_AND_CRC);
    }
    bool ascii_state() const { return is(NS::WAITING_FOR_ASCII_HEADER_AND_BODY) | is(NS::WAITING_FOR_ASCII_CRC); }
    bool abb_state() const { return is(NS::WAITING_FOR_ABB_ASCII_SYNC2) | is(NS::WAITING_FOR_ABB_ASCII_HEADER) | is(NS::WAITING_FOR_ABB_ASCII_BODY); }
    bool nmea_state() const { return is(NS::WAITING_FOR_NMEA_BODY) | is(NS::WAITING_FOR_NMEA_CRC); }
    bool json_state() const { return is(NS::WAITING_FOR_JSON_OBJECT); }
    bool sync2(uint64_t i) const { return (at(i) == 0x44) | (at(i) == 0x45); }
    bool longb() const { return at(2) == 0x12; }
    uint64_t hdr() const { return pick<uint64_t>(longb(), 28, 12); }
    uint64_t payload() const { return pick<uint64_t>(longb(), at(8) | (uint64_t(at(9)) << 8), at(3)); }
    uint64_t total() const { return hdr() + payload() + 4; }
    bool front_binary() const { return (at(0) == 0xAA) & sync2(1) & ((at(2) == 0x12) | (at(2) == 0x13)); }
    HF front_fmt() const { return pick(at(2) == 0x13, HF::SHORT_BINARY, pick(at(1) == 0x45, HF::PROPRIETARY_BINARY, HF::BINARY)); }
    uint64_t maxlen() const { return pick<uint64_t>(longb(), MAX_BINARY_MESSAGE_LENGTH, MAX_SHORT_BINARY_MESSAGE_LENGTH); }

    // ---- the state relation
    // the bytes read are buffered; some state that persists
    bool r_count() const { return (cnt() <= a.size) & (st() >= NS::WAITING_FOR_SYNC) & (st() < NS::COMPLETE_MESSAGE); }
    // the format remembered by the caller belongs to the state
    bool r_format() const
    {
        return (!ascii_state() | (fmt() == pick(at(0) == '#', HF::ASCII, HF::SHORT_ASCII))) & (!abb_state() | (fmt() == HF::ABB_ASCII)) & (!nmea_state() | (fmt() == HF::NMEA)) &
               (!json_state() | (fmt() == HF::JSON)) & (!is(NS::WAITING_FOR_BINARY_HEADER) | (fmt() == front_fmt())) &
               (!is(NS::WAITING_FOR_SHORT_BINARY_HEADER) | (fmt() == front_fmt())) & (!is(NS::WAITING_FOR_BINARY_BODY_AND_CRC) | (fmt() == front_fmt())) &
               (!is(NS::WAITING_FOR_BINARY_SYNC3) | (fmt() == pick(at(1) == 0x45, HF::PROPRIETARY_BINARY, HF::UNKNOWN))) & (!is(NS::WAITING_FOR_BINARY_SYNC2) | (fmt() == HF::UNKNOWN));
    }
    bool r_front() const
    {
        return (!ascii_state() | (at(0) == '#') | (at(0) == '%')) & (!abb_state() | (at(0) == '<')) & (!nmea_state() | (at(0) == '$')) & (!json_state() | (at(0) == '{'));
    }
    bool r_started() const { return (is(NS::WAITING_FOR_SYNC) | bstate() | is(NS::WAITING_FOR_ABB_ASCII_SYNC2) | (cnt() >= 1)) & (!is(NS::WAITING_FOR_ASCII_CRC) | (cnt() >= 2)); }
    bool r_binary() const
    {
        bool s2 = (cnt() <= 1) & ((at(cnt()) == 0xAA) | ((cnt() == 1) & (at(0) == 0xAA)));
        bool s3 = (cnt() == 2) & (at(0) == 0xAA) & sync2(1);
        bool h = front_binary() & longb() & (cnt() >= 3) & (cnt() < 28);
        bool hs = front_binary() & !longb() & (cnt() >= 3) & (cnt() < 12);
        bool b = front_binary() & (cnt() >= hdr()) & (cnt() < total());
        return (!is(NS::WAITING_FOR_BINARY_SYNC2) | s2) & (!is(NS::WAITING_FOR_BINARY_SYNC3) | s3) & (!is(NS::WAITING_FOR_BINARY_HEADER) | h) &
               (!is(NS::WAITING_FOR_SHORT_BINARY_HEADER) | hs) & (!is(NS::WAITING_FOR_BINARY_BODY_AND_CRC) | b);
    }
    bool r_expected() const
    {
        return !is(NS::WAITING_FOR_BINARY_BODY_AND_CRC) |
               ((a.f->uiMyExpectedPayloadLength == payload()) & (a.f->uiMyExpectedMessageLength == total()) & (total() <= maxlen()));
    }
    bool r_crc() const
    {
        bool b = bstate() & !(is(NS::WAITING_FOR_BINARY_SYNC2) & ((cnt() == 0) | (at(cnt()) == 0xAA)));
        return !b | (a.f->uiMyCalculatedCrc32 == crc(a.data, pick<uint64_t>(b, cnt(), 0)));
    }
    bool r_crc_ascii() const
    {
        bool s = ascii_state();
        uint64_t n = cnt() - 1 - is(NS::WAITING_FOR_ASCII_CRC);
        bool ok = s & (n < a.size);
        return !s | (a.f->uiMyCalculatedCrc32 == crc(a.data + ok, pick<uint64_t>(ok, n, 0)));
    }
    bool r_ascii() const { return !is(NS::WAITING_FOR_ASCII_CRC) | ((cnt() >= 2) & (at(cnt() - 1) == '*') & crlf(a, cnt() + 8) & (cnt() + 10 <= a.size)); }
    bool r_abb() const
    {
        return (!abb_state() | (a.f->uiMyAbbrevAsciiHeaderPosition == 1)) & (!is(NS::WAITING_FOR_ABB_ASCII_SYNC2) | (cnt() <= 1)) &
               (!(is(NS::WAITING_FOR_ABB_ASCII_HEADER) | is(NS::WAITING_FOR_ABB_ASCII_BODY)) | (a.size >= 2));
    }
    bool r_json() const { return !json_state() | ((a.f->uiMyJsonObjectOpenBraces >= 1) & (a.f->uiMyJsonObjectOpenBraces <= cnt())); }
    // no byte passed over starts a binary message
    bool r_j() const { return (j < 1) | (j >= cnt()) | (at(j) != 0xAA) | binary(); }
    bool r_v0() const { return !v0 | bstate() | (is(NS::WAITING_FOR_SYNC) & (cnt() == 0)); }
    // no terminator passed over
    bool r_t() const
    {
        return !ascii_state() | (t < 1) | (t + is(NS::WAITING_FOR_ASCII_CRC) >= cnt()) | (at(t) != '*') | ((t + 11 <= a.size) & !crlf(a, t + 9));
    }
    // a response line does not go on
    bool r_response() const
    {
        auto may = [&](uint64_t i, B b) { return (i >= cnt()) | (at(i) == b); };
        bool resp = (may(1, 'O') & may(2, 'K')) | (may(1, 'E') & may(2, 'R') & may(3, 'R') & may(4, 'O') & may(5, 'R'));
        return !is(NS::WAITING_FOR_ABB_ASCII_BODY) | !resp;
    }
    // the message that ends at the first terminator t (precondition `ascii`): it is what is being read
    bool r_text() const
    {
        return !ascii | (is(NS::WAITING_FOR_SYNC) & (cnt() == 0)) | (is(NS::WAITING_FOR_ASCII_HEADER_AND_BODY) & (cnt() <= t)) | (is(NS::WAITING_FOR_ASCII_CRC) & (cnt() == t + 1));
    }
    // that precondition at the byte to be read
    bool at_text() const { return !ascii | (cnt() >= t) | ((at(cnt()) < 128) & ((cnt() < 1) | !terminator(a, cnt()))); }
    bool relation() const
    {
        return r_count() & r_format() & r_front() & r_started() & r_binary() & r_expected() & r_crc() & r_crc_ascii() & r_ascii() & r_abb() & r_json() & r_j() & r_t() & r_response();
    }
#ifdef VC_NATIVE
    // native runs: a state reached on a part of the bytes
    void simulate()
    {
        uint64_t r = __vc_native_u64("prefix");
        if (r % 8 == 7) { return; }
        FixedBuffer<B> b(a.a.cap);
        uint64_t m = (r / 16) % (a.size + 1);
        if (m) { (void)b.write(a.data, m); }
        Framer f(std::shared_ptr<UCharFixedBuffer>(std::shared_ptr<UCharFixedBuffer>(), &b));
        f.bMyFrameJson = a.f->bMyFrameJson;
        MetaDataStruct d;
        d.eFormat = md->eFormat;
        std::vector<B> o(a.a.cap + 1);
        if (f.GetFrame(o.data(), static_cast<uint32_t>(o.size()), d, true) != STATUS::INCOMPLETE) { f.InitAttributes(), f.ResetState(); }
        a.f->eMyFrameState = f.eMyFrameState;
        a.f->uiMyByteCount = f.uiMyByteCount;
        a.f->uiMyCalculatedCrc32 = f.uiMyCalculatedCrc32;
        a.f->uiMyExpectedMessageLength = f.uiMyExpectedMessageLength;
        a.f->uiMyExpectedPayloadLength = f.uiMyExpectedPayloadLength;
        a.f->uiMyAbbrevAsciiHeaderPosition = f.uiMyAbbrevAsciiHeaderPosition;
        a.f->uiMyJsonObjectOpenBraces = f.uiMyJsonObjectOpenBraces;
        md->eFormat = d.eFormat;
    }
#endif
    // phases of a search that starts over at most once, and the bytes left in each
    uint64_t measure() const
    {
        bool f = ascii_fmt(), s0 = is(NS::WAITING_FOR_SYNC), none = cnt() == 0;
        bool again = is(NS::WAITING_FOR_BINARY_SYNC2) & (at(cnt()) == 0xAA) & (cnt() <= 1); // the sync byte is read once more
        uint64_t phase = pick<uint64_t>(none, pick<uint64_t>(s0, pick<uint64_t>(f, 7, 5), 6), pick<uint64_t>(s0, pick<uint64_t>(f, 3, 1), pick<uint64_t>(again, 2, 4)));
        return (phase << 40) + (a.size - cnt());
    }
    void hints() const
    {
        __vc_measure([](const void* p) -> uint64_t { return static_cast<const Frm*>(p)->measure(); }, this);
#define VC_HINT(r) __vc_inv_state([](const void* p) -> bool { return static_cast<const Frm*>(p)->r(); }, this)
        VC_HINT(r_count);
        VC_HINT(r_format);
        VC_HINT(r_front);
        VC_HINT(r_started);
        VC_HINT(r_binary);
        VC_HINT(r_expected);
        VC_HINT(r_crc);
        VC_HINT(r_crc_ascii);
        VC_HINT(r_ascii);
        VC_HINT(r_abb);
        VC_HINT(r_json);
        VC_HINT(r_j);
        VC_HINT(r_t);
        VC_HINT(r_v0);
        VC_HINT(r_response);
        if (ascii) { VC_HINT(r_text); }
        if (ascii) { __vc_loop_assume([](const void* p) -> bool { return static_cast<const Frm*>(p)->at_text(); }, this); }
    }
};

template <bool PAYLOAD, bool TEXT> void framer()
{
    Frm g;
    auto& a = g.a;
    vc_framer = a.f;
    vc_data = a.data;
    vc_size = a.size;
    g.j = __vc_u64("j");
    g.t = __vc_u64("t");
    __vc_assume((g.j <= a.a.cap) & (g.t <= a.a.cap));
    a.f->bMyPayloadOnly = PAYLOAD;
    a.f->bMyFrameJson = __vc_bool("json");
    a.f->eMyFrameState = static_cast<NS>(__vc_u32("state"));
    a.f->uiMyCalculatedCrc32 = __vc_u32("crc");
    a.f->uiMyExpectedMessageLength = __vc_u32("expectedMessage");
    a.f->uiMyExpectedPayloadLength = __vc_u32("expectedPayload");
    a.f->uiMyAbbrevAsciiHeaderPosition = __vc_u32("headerPosition");
    a.f->uiMyJsonObjectOpenBraces = __vc_u32("braces");
    Call<AnyFramer<Framer>> c(a);
    g.md = &c.md;
    c.md.eFormat = static_cast<HF>(__vc_u8("format"));
    __vc_assume((c.md.eFormat >= HF::UNKNOWN) & (c.md.eFormat <= HF::ALL));
#ifdef VC_NATIVE
    g.simulate();
    if (TEXT && g.t % 2)
    {
        for (g.t = 1; g.t < a.size && !terminator(a, g.t); g.t++) {}
    }
#endif
    // a valid ASCII message is at the front: t is its terminator, there is none before it (instantiated at the bytes read)
    g.ascii = TEXT;
    if (TEXT)
    {
        __vc_assume(((a.at(0) == '#') | (a.at(0) == '%')) & (g.t >= 1) & terminator(a, g.t) & (g.t + 11 <= MAX_ASCII_MESSAGE_LENGTH));
        Field f = crc_field(a, g.t + 1, true);
        __vc_assume(f.digits & (f.value == crc(a.data + 1, g.t - 1)));
#ifdef VC_NATIVE
        for (uint64_t q = 0; q < g.t; q++) { __vc_assume((a.at(q) < 128) & ((q < 1) | !terminator(a, q))); }
#endif
    }
    __vc_assume(crc(a.data, 0) == 0);
    __vc_assume(crc(a.data + (a.size > 0), 0) == 0);
    uint64_t tot = g.total();
    bool v = g.front_binary() & (tot <= g.maxlen()) & (tot <= a.size);
    g.v0 = v & (crc(a.data, pick<uint64_t>(v, tot, 0)) == 0);
    bool rel = g.relation() & !g.is(NS::WAITING_FOR_ASCII_CRC) & (!g.is(NS::WAITING_FOR_SYNC) | (g.cnt() == 0));
    __vc_assume(rel);
    HF ff = g.front_fmt();
    bool fb = g.front_binary();
    g.hints();
    c.st = a.f->Framer::GetFrame(c.out, c.outsize, c.md, c.meta);
    if (PAYLOAD && (c.st == STATUS::SUCCESS) & ((c.md.eFormat == HF::BINARY) | (c.md.eFormat == HF::SHORT_BINARY) | (c.md.eFormat == HF::PROPRIETARY_BINARY)))
    {
        c.skip = g.hdr();
        c.tail = 4;
    }
    c.conserve();
    uint64_t len = c.md.uiLength;
    bool frame = c.st == STATUS::SUCCESS, unknown = c.st == STATUS::UNKNOWN;
    HF fmt = c.md.eFormat;
    bool isbin = (fmt == HF::BINARY) | (fmt == HF::SHORT_BINARY) | (fmt == HF::PROPRIETARY_BINARY), isasc = (fmt == HF::ASCII) | (fmt == HF::SHORT_ASCII);
    __vc_assert(!frame | !isbin | (fb & (fmt == ff) & (len == (PAYLOAD ? g.payload() : tot)) & g.v0), "binary-frame-is-valid");
    __vc_assert(!frame | isbin | isasc | (fmt == HF::ABB_ASCII) | (fmt == HF::NMEA) | (fmt == HF::JSON), "frame-has-a-format");
    bool fa = frame & isasc;
    uint64_t d = len - 11;
    Field f = crc_field(a, d + 1, fa);
    uint32_t fc = crc(a.data + fa, pick<uint64_t>(fa, d - 1, 0));
    __vc_assert(!fa | ((len >= 12) & (a.at(0) == pick(fmt == HF::ASCII, '#', '%')) & terminator(a, d)), "ascii-frame-has-sync-and-terminator");
    __vc_assert(!fa | !f.digits | (fc == f.value), "ascii-frame-has-matching-crc");
    __vc_assert(!fa | (g.t < 1) | (g.t >= d) | !terminator(a, g.t), "ascii-frame-ends-at-the-first-terminator");
    __vc_assert(!frame | (fmt != HF::ABB_ASCII) | ((len >= 3) & (a.at(0) == '<') & crlf(a, len - 2)), "abbreviated-frame-is-whole-lines");
    __vc_assert(!frame | (fmt != HF::NMEA) | ((a.at(0) == '$') & (a.at(len - 1) == '\n')), "nmea-frame-ends");
    __vc_assert(!frame | (fmt != HF::JSON) | ((a.at(0) == '{') & (a.at(len - 1) == '}')), "json-frame-ends");
    __vc_assert(!unknown | (g.j < 1) | (g.j >= len) | (a.at(g.j) != 0xAA), "discards-no-start-of-a-binary-message");
    __vc_assert(!unknown | !g.v0, "discards-no-valid-binary-message");
    __vc_assert(!g.v0 | (frame & isbin) | ((c.st == STATUS::BUFFER_FULL) & (c.outsize < (PAYLOAD ? g.payload() : tot)) | ((c.st == STATUS::BUFFER_FULL) & (c.outsize < g.hdr()))), "valid-binary-message-at-the-front-is-delivered");
    __vc_assert(frame | unknown | (c.st == STATUS::INCOMPLETE) | ((c.st == STATUS::BUFFER_EMPTY) & (a.size == 0)) | ((c.st == STATUS::BUFFER_FULL) & ((c.outsize < len) | (c.outsize == 0))),
                "other-status");
    __vc_assert(!frame | (fmt == HF::ABB_ASCII) | !c.md.bResponse, "no-response");
    __vc_assert(!frame | (fmt != HF::ABB_ASCII) | (c.md.bResponse == response(a)), "response-flag");
    __vc_assert(!frame | (fmt != HF::ABB_ASCII) | c.md.bResponse | ((len + 1 < a.size) & ((a.at(len) != '<') | (a.at(len + 1) != ' '))), "abbreviated-frame-ends-before-another-line");
    if (TEXT)
    {
        bool full = (c.st == STATUS::BUFFER_FULL) & (c.outsize < g.t + 11);
        __vc_assert((frame & (len == g.t + 11) & (fmt == pick(a.at(0) == '#', HF::ASCII, HF::SHORT_ASCII))) | full, "valid-ascii-message-at-the-front-is-delivered");
    }
    // ready for the next call
    if (c.st == STATUS::INCOMPLETE) { __vc_assert(g.relation() & !g.is(NS::WAITING_FOR_ASCII_CRC) & !g.is(NS::WAITING_FOR_SYNC), "state-kept"); }
    else { __vc_assert(g.is(NS::WAITING_FOR_SYNC) & (g.cnt() == 0), "starts-over"); }
    if (frame) { __vc_cover("frame"); }
    else if constexpr (TEXT) { __vc_cover("full"); }
    else if (unknown) { __vc_cover("unknown"); }
    else { __vc_cover("other"); }
}
extern "C" void drv_oem() { framer<false, false>(); }
extern "C" void drv_oem_payload() { framer<true, false>(); }
extern "C" void drv_oem_text() { framer<false, true>(); }
