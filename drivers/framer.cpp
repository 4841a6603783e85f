// Contracts of the framers of the framer manager (binary, short binary, ASCII, short ASCII, abbreviated ASCII) on one buffer of bytes.
#include "anybuf.h"
#include "fbcontracts.h"
#include <charconv>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <unordered_map>
#define private public
#define protected public
#include "novatel_edie/decoders/oem/framer_abb_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii_short.hpp"
#include "novatel_edie/decoders/oem/framer_binary.hpp"
#include "novatel_edie/decoders/oem/framer_binary_short.hpp"
#include "novatel_edie/decoders/common/framer_manager.hpp"
#undef private
#undef protected
#include "src/decoders/common/src/framer.cpp"
#include "src/decoders/common/src/framer_manager.cpp"
#include "src/decoders/oem/src/framer_abb_ascii.cpp"
#include "src/decoders/oem/src/framer_ascii.cpp"
#include "src/decoders/oem/src/framer_ascii_short.cpp"
#include "src/decoders/oem/src/framer_binary.cpp"
#include "src/decoders/oem/src/framer_binary_short.cpp"
#include "nolog.h"
#include "framerlib.h"


struct Bin
{
    using F = FramerBinary;
    static constexpr HEADER_FORMAT fmt = HEADER_FORMAT::BINARY;
    static constexpr uint64_t hdr = 28, maxlen = MAX_BINARY_MESSAGE_LENGTH;
    template <class A> static bool sync(const A& a, uint64_t i) { return (a.at(i) == 0xAA) & (a.at(i + 1) == 0x44) & (a.at(i + 2) == 0x12); }
    template <class A> static uint64_t total(const A& a, uint64_t i) { return 28 + 4 + (a.at(i + 8) | (uint64_t(a.at(i + 9)) << 8)); }
};
struct BinShort
{
    using F = FramerBinaryShort;
    static constexpr HEADER_FORMAT fmt = HEADER_FORMAT::SHORT_BINARY;
    static constexpr uint64_t hdr = 12, maxlen = MAX_SHORT_BINARY_MESSAGE_LENGTH;
    template <class A> static bool sync(const A& a, uint64_t i) { return (a.at(i) == 0xAA) & (a.at(i + 1) == 0x44) & (a.at(i + 2) == 0x13); }
    template <class A> static uint64_t total(const A& a, uint64_t i) { return 12 + 4 + uint64_t(a.at(i + 3)); }
};

// a complete frame with a matching CRC starts at i
template <class S, class A> bool valid_binary(const A& a, uint64_t i)
{
    uint64_t t = S::total(a, i);
    bool ok = (i < a.size) & S::sync(a, i) & (t <= S::maxlen) & (t <= a.size - i);
    uint64_t m = -static_cast<uint64_t>(ok);
    const B* p = a.data + (i & m);
    uint64_t n = (t - 4) & m;
    uint32_t field = __vc_peek8(p + n) | (uint32_t(__vc_peek8(p + n + 1)) << 8) | (uint32_t(__vc_peek8(p + n + 2)) << 16) | (uint32_t(__vc_peek8(p + n + 3)) << 24);
    return ok & (crc(p, n) == field);
}

template <class S> void binary()
{
    AnyFramer<typename S::F> a;
    // what GetFrame left behind: bytes examined only when a sync is at the front
    __vc_assume((a.count0 == 0) | ((a.count0 >= 3) & S::sync(a, 0)));
    Call<decltype(a)> c(a);
    uint64_t j = __vc_u64("j"); // any position
    __vc_assume(j <= a.a.cap);
    bool v0 = valid_binary<S>(a, 0), vj = valid_binary<S>(a, j);
    uint64_t t0 = S::total(a, 0);
    bool syncj = (j < a.size) & (a.at(j) == 0xAA) & ((j + 1 >= a.size) | (a.at(j + 1) == 0x44)) & ((j + 2 >= a.size) | S::sync(a, j));
    vc_ghost_k[0] = j;
    vc_ghost_k[1] = 0;
    c.run();
    c.conserve();
    uint64_t len = c.md.uiLength;
    bool frame = c.st == STATUS::SUCCESS, unknown = c.st == STATUS::UNKNOWN;
    __vc_assert(!frame | v0, "frame-has-sync-length-and-crc");
    __vc_assert(!frame | (len == t0), "frame-has-its-encoded-length");
    __vc_assert(!frame | ((c.md.eFormat == S::fmt) & !c.md.bResponse), "format");
    __vc_assert(!unknown | (j >= len) | !vj, "discards-no-valid-frame");
    __vc_assert(!unknown | (j >= len) | !syncj | (j == 0), "discards-no-start-of-a-frame");
    __vc_assert(!unknown | !syncj | (j != 0) | ((a.size >= S::hdr) & ((t0 > S::maxlen) | ((t0 <= a.size) & !v0))), "discards-a-sync-only-when-the-frame-is-refuted");
    __vc_assert((c.st != STATUS::INCOMPLETE) | S::sync(a, 0) | (a.size < 3), "incomplete-only-at-a-sync");
    __vc_assert(frame | unknown | (c.st == STATUS::INCOMPLETE) | ((c.st == STATUS::BUFFER_EMPTY) & (a.size == 0)) | ((c.st == STATUS::BUFFER_FULL) & (c.outsize < len)),
                "other-status");
    __vc_assert(!v0 | frame | ((c.st == STATUS::BUFFER_FULL) & (c.outsize < t0)), "valid-frame-at-the-front-is-delivered");
    uint64_t n = a.a.fb->size(), cnt = a.f->uiMyByteCount;
    __vc_assert((cnt == 0) | ((cnt >= 3) & (cnt <= n) & S::sync(a, 0)), "state-kept");
    if (frame) { __vc_cover("frame"); }
    else if (unknown) { __vc_cover("unknown"); }
    else { __vc_cover("other"); }
}

extern "C" void drv_binary() { binary<Bin>(); }
extern "C" void drv_binary_short() { binary<BinShort>(); }

// ---- ASCII and short ASCII: <sync> ... *<8 hex digits>\r\n
struct Asc
{
    using F = FramerAscii;
    static constexpr HEADER_FORMAT fmt = HEADER_FORMAT::ASCII;
    static constexpr B sync = '#';
    static constexpr uint64_t maxlen = MAX_ASCII_MESSAGE_LENGTH;
};
struct AscShort
{
    using F = FramerAsciiShort;
    static constexpr HEADER_FORMAT fmt = HEADER_FORMAT::SHORT_ASCII;
    static constexpr B sync = '%';
    static constexpr uint64_t maxlen = MAX_SHORT_ASCII_MESSAGE_LENGTH;
};
template <class S, bool HYP> void ascii()
{
    AnyFramer<typename S::F> a;
    uint64_t t = __vc_u64("t"), i = __vc_u64("i"); // any positions
#ifdef VC_NATIVE
    if (HYP && t % 2)
    {
        for (t = 1; t < a.size && !terminator(a, t); t++) {}
    }
#endif
    __vc_assume((t >= 1) & (t <= a.a.cap) & (i <= a.a.cap));
    constexpr bool hyp = HYP; // t is the first terminator
    __vc_assume(!hyp | (terminator(a, t) & (a.at(0) == S::sync) & (t + 11 <= S::maxlen)));
#ifdef VC_NATIVE
    for (uint64_t q = 1; q < t && hyp; q++) { __vc_assume(!terminator(a, q)); }
    for (uint64_t q = 0; q < a.count0; q++) { __vc_assume((a.at(q) != '*') | ((q + 11 <= a.size) & !crlf(a, q + 9))); }
#endif
    // what GetFrame left behind: the bytes before the resumption point hold no terminator, whatever is appended
    auto seen = [&](uint64_t q) { return (a.at(q) != '*') | ((q + 11 <= a.size) & !crlf(a, q + 9)); };
    __vc_assume((a.count0 == 0) | (a.at(0) == S::sync));
    __vc_assume(((t >= a.count0) | seen(t)) & ((i >= a.count0) | seen(i)));
    Call<decltype(a)> c(a);
    bool tcrc = false;
    {
        bool m = hyp;
        Field f = crc_field(a, t + 1, m);
        tcrc = m & f.digits & (crc(a.data + 1, m ? t - 1 : 0) == f.value);
    }
    vc_ghost_k[0] = t;
    vc_ghost_k[1] = i;
    vc_ghost_k[2] = 0;
    struct H
    {
        const decltype(a)& f;
        bool hyp;
        uint64_t t, i;
        bool termt, seeni;
    } h{a, hyp, t, i, terminator(a, t), seen(i)};
    // FindFrameEnd: x is npos or a delimiter; no terminator was passed over
    __vc_inv(
        [](const void* p, uint64_t x) -> bool {
            const H& v = *static_cast<const H*>(p);
            bool none = x == ~0ULL, all = v.f.size < S::maxlen;
            return (none | ((x < v.f.size) & (v.f.at(x) == '*'))) & (!v.termt | (v.t < v.f.count0) | (none ? !all & (v.t >= S::maxlen) : v.t >= x)) &
                   (v.seeni | (v.i < v.f.count0) | (none ? !all : v.i >= x)) & (!v.hyp | (x >= v.t) | !terminator(v.f, x));
        },
        &h);
    vc_search_hook_arg = &h;
    vc_search_hook = [](const void* p, uint64_t r) {
        const H& x = *static_cast<const H*>(p);
        __vc_assume(!x.hyp | (r >= x.t) | !terminator(x.f, r)); // t is the first terminator: none at r < t
    };
    c.run();
    c.conserve();
    uint64_t len = c.md.uiLength;
    bool frame = c.st == STATUS::SUCCESS, unknown = c.st == STATUS::UNKNOWN;
    uint64_t d = len - 11; // the delimiter of a frame
    Field f = crc_field(a, d + 1, frame);
    uint32_t fc = crc(a.data + 1, frame ? d - 1 : 0);
    __vc_assert(!frame | ((len >= 12) & (a.at(0) == S::sync) & terminator(a, d)), "frame-has-sync-and-terminator");
    __vc_assert(!frame | !f.digits | (fc == f.value), "frame-has-matching-crc");
    __vc_assert(!frame | (t >= d) | !terminator(a, t), "frame-ends-at-the-first-terminator");
    __vc_assert(!frame | ((c.md.eFormat == S::fmt) & !c.md.bResponse), "format");
    __vc_assert(!unknown | (i >= len) | (i == 0) | (a.at(i) != S::sync), "discards-no-start-of-a-frame");
    __vc_assert(!unknown | (a.at(0) != S::sync) | (len == 1), "discards-one-byte-at-a-sync");
    __vc_assert((c.st != STATUS::INCOMPLETE) | ((a.at(0) == S::sync) & (a.size > 0)), "incomplete-only-at-a-sync");
    __vc_assert(frame | unknown | (c.st == STATUS::INCOMPLETE) | ((c.st == STATUS::BUFFER_EMPTY) & (a.size == 0)) | ((c.st == STATUS::BUFFER_FULL) & (c.outsize < len)),
                "other-status");
    // the message that ends at the first terminator
    bool full = (c.st == STATUS::BUFFER_FULL) & (c.outsize < t + 11);
    __vc_assert(!hyp | frame | unknown | full, "complete-message-is-decided");
    __vc_assert(!hyp | !tcrc | (frame & (len == t + 11)) | full, "valid-frame-at-the-front-is-delivered");
    __vc_assert(!hyp | (c.st != STATUS::UNKNOWN) | !tcrc, "discards-no-valid-frame");
    // resumption point: only the bytes that cannot hold a terminator are skipped next time
    uint64_t n = a.a.fb->size(), cnt = a.f->uiMyByteCount;
    bool stale = c.meta & (frame | unknown);
    __vc_assert((cnt == 0) | ((cnt <= n) & (a.at(0) == S::sync)), "state-kept");
    __vc_assert(stale | (i >= cnt) | seen(i), "resumes-before-any-terminator");
    if (frame) { __vc_cover("frame"); }
    else if (unknown) { __vc_cover("unknown"); }
    else { __vc_cover("other"); }
}
// the contract of std::from_chars at its call sites (8 characters, base 16)
extern "C" void drv_fromchars()
{
    __vc_unroll(10);
    char* p = static_cast<char*>(__vc_obj(8, "digits"));
    uint32_t v0 = __vc_u32("before"), v = v0, e = 0;
    auto r = std::from_chars(p, p + 8, v, 16);
    bool all = true;
    for (unsigned k = 0; k < 8; k++)
    {
        all &= hexdigit(p[k]);
        e = (e << 4) | hexval(p[k]);
    }
    __vc_assert(!all | ((r.ec == std::errc()) & (v == e) & (r.ptr == p + 8)), "eight-hex-digits-are-their-value");
    __vc_assert((r.ec == std::errc()) | ((v == v0) & (r.ec == std::errc::invalid_argument)), "or-refused");
    __vc_assert(hexdigit(p[0]) == (r.ec == std::errc()), "accepts-when-the-first-character-is-a-digit");
    __vc_cover("end");
}
extern "C" void drv_ascii() { ascii<Asc, false>(); }
extern "C" void drv_ascii_message() { ascii<Asc, true>(); }
extern "C" void drv_ascii_short() { ascii<AscShort, false>(); }
extern "C" void drv_ascii_short_message() { ascii<AscShort, true>(); }

// ---- abbreviated ASCII: a line <..., then body lines "< ...", ended by a line that is none; or one line <OK... or <ERROR...
template <class A> bool body(const A& a, uint64_t q) { return (a.at(q) == '<') & (a.at(q + 1) == ' '); }
template <bool HYP, bool RESP> void abb()
{
    AnyFramer<FramerAbbAscii> a;
    uint64_t e = __vc_u64("e"), i = __vc_u64("i"); // any positions
    bool resp = response(a);
    __vc_assume(resp == RESP);
    uint64_t h = __vc_u64("h"); // the first line end, of a message with a body
#ifdef VC_NATIVE
    if (HYP && e % 2)
    {
        for (h = 1; h < a.size && !crlf(a, h); h++) {}
        for (e = resp ? h : h + 1; e < a.size && !(crlf(a, e) && (resp || !body(a, e + 2))); e++) {}
    }
#endif
    __vc_assume((e >= 1) & (e <= a.a.cap) & (i <= a.a.cap));
    bool front = (a.size >= 2) & (a.at(0) == '<') & (a.at(1) != ' ');
    // a line end at q that is known to go on with a body line (or no line end at q), whatever is appended
    auto goes_on = [&](uint64_t q) { return crlf(a, q) & (q + 3 < a.size) & body(a, q + 2); };
    auto seen = [&](uint64_t q) { return (a.at(q) != '\r') | ((q + 1 < a.size) & (a.at(q + 1) != '\n')) | goes_on(q); };
    constexpr bool hyp = HYP; // a message that ends with the line end at e is buffered
    if (hyp)
    {
        __vc_assume(front & crlf(a, e) & (e + 2 <= MAX_ASCII_MESSAGE_LENGTH));
        // the response is one line; other messages have body lines, the line end at e is not the first one and no body line follows
        if (!resp) { __vc_assume((e + 3 < a.size) & !body(a, e + 2)); }
    }
    __vc_assume(h <= a.a.cap);
    if (hyp) { __vc_assume(resp | ((h >= 1) & (h < e) & crlf(a, h) & body(a, h + 2))); }
#ifdef VC_NATIVE
    for (uint64_t q = 1; q < e && hyp; q++) { __vc_assume(resp ? !crlf(a, q) : !crlf(a, q) | ((q >= h) & body(a, q + 2))); }
    for (uint64_t q = 0; q < a.count0; q++) { __vc_assume(seen(q)); }
#endif
    __vc_assume((a.count0 == 0) | front);
    __vc_assume(((e >= a.count0) | seen(e)) & ((i >= a.count0) | seen(i)) & (!hyp | resp | (h >= a.count0) | seen(h)));
    Call<decltype(a)> c(a);
    vc_ghost_k[0] = e;
    vc_ghost_k[1] = i;
    vc_ghost_k[2] = 0;
    vc_ghost_k[3] = h;
    bool starti = (a.at(i) == '<') & (i < a.size) & ((i + 1 >= a.size) | (a.at(i + 1) != ' '));
    struct H
    {
        const decltype(a)& f;
        bool hyp, resp;
        uint64_t e, h, i;
        bool seene, seeni, starti, front;
    } g{a, hyp, resp, e, h, i, seen(e), seen(i), starti, front};
    vc_search_hook_arg = &g;
    vc_search_hook = [](const void* p, uint64_t r) {
        const H& x = *static_cast<const H*>(p);
        bool end = crlf(x.f, r);
        __vc_assume(!x.hyp | (r >= x.e) | !end | (!x.resp & (r >= x.h) & body(x.f, r + 2))); // no line before e ends the message; h ends the first line
    };
    // FindFrameEnd: x is npos or at a carriage return; the lines before x go on
    __vc_inv(
        [](const void* p, uint64_t x) -> bool {
            const H& v = *static_cast<const H*>(p);
            bool none = x == ~0ULL, all = v.f.size < MAX_ASCII_MESSAGE_LENGTH;
            return (none | ((x < v.f.size) & (v.f.at(x) == '\r'))) & (v.seeni | (none ? !all : v.i >= x)) & (v.seene | (none ? !all & !v.hyp : v.e >= x)) &
                   (!v.hyp | (x > v.h));
        },
        &g);
    if (hyp)
    {
        __vc_inv([](const void* p, uint64_t x) -> bool { return crlf(static_cast<const H*>(p)->f, x); }, &g);
        __vc_inv(
            [](const void* p, uint64_t x) -> bool {
                const H& v = *static_cast<const H*>(p);
                return v.resp | (x >= v.e) | body(v.f, x + 2);
            },
            &g);
    }
    // FindSync: x is npos or at a '<' of the window; none before x starts a message
    __vc_inv(
        [](const void* p, uint64_t x) -> bool {
            const H& v = *static_cast<const H*>(p);
            bool none = x == ~0ULL;
            return (none | ((x < v.f.size) & (x < 256) & (v.f.at(x) == '<'))) & (!v.starti | (none ? v.i >= 256 : v.i >= x)) & (!v.front | (x == 0));
        },
        &g);
    c.run();
    c.conserve();
    uint64_t len = c.md.uiLength;
    bool frame = c.st == STATUS::SUCCESS, unknown = c.st == STATUS::UNKNOWN;
    __vc_assert(!frame | (front & (len >= 3) & crlf(a, len - 2)), "frame-is-whole-lines");
    __vc_assert(!frame | (c.md.bResponse == resp), "response-flag");
    __vc_assert(!frame | !resp | (e + 2 >= len) | !crlf(a, e), "response-is-one-line");
    __vc_assert(!frame | resp | (e + 2 >= len) | !crlf(a, e) | body(a, e + 2), "frame-goes-on-over-body-lines");
    __vc_assert(!frame | resp | ((len + 1 < a.size) & !body(a, len)), "frame-ends-before-another-line");
    __vc_assert(!frame | (c.md.eFormat == HEADER_FORMAT::ABB_ASCII), "format");
    __vc_assert(!unknown | (i >= len) | (i == 0) | !starti, "discards-no-start-of-a-frame");
    __vc_assert(!unknown | !front | (len == 1), "discards-one-byte-at-a-sync");
    __vc_assert((c.st != STATUS::INCOMPLETE) | front | ((a.size == 1) & (a.at(0) == '<')), "incomplete-only-at-a-sync");
    __vc_assert(frame | unknown | (c.st == STATUS::INCOMPLETE) | ((c.st == STATUS::BUFFER_EMPTY) & (a.size == 0)) | ((c.st == STATUS::BUFFER_FULL) & (c.outsize < len)),
                "other-status");
    __vc_assert(!hyp | (frame & (len == e + 2)) | ((c.st == STATUS::BUFFER_FULL) & (c.outsize < e + 2)), "complete-message-is-delivered");
    uint64_t n = a.a.fb->size(), cnt = a.f->uiMyByteCount;
    bool stale = c.meta & (frame | unknown);
    __vc_assert((cnt == 0) | ((cnt <= n) & front), "state-kept");
    __vc_assert(stale | (i >= cnt) | seen(i), "resumes-before-the-end-of-the-message");
    if (frame) { __vc_cover("frame"); }
    else if constexpr (HYP) { __vc_cover("other"); }
    else if (unknown) { __vc_cover("unknown"); }
}
extern "C" void drv_abb() { abb<false, false>(); }
extern "C" void drv_abb_message() { abb<true, false>(); }
extern "C" void drv_abb_r() { abb<false, true>(); }
extern "C" void drv_abb_response() { abb<true, true>(); }

// ---- the framer manager over N framers that each obey the contract above in metadata-only mode
namespace member {
constexpr unsigned MAX = 5;
struct Log
{
    unsigned calls = 0, order[MAX] = {};
    STATUS st[MAX] = {};
    uint32_t len[MAX] = {};
    unsigned resets[MAX] = {};
    bool wrong = false;
} * lg;
const FixedBuffer<B>* buf;
B* out;
uint32_t outsize;

struct Member final : FramerBase
{
    unsigned id;
    Member(unsigned i, std::shared_ptr<UCharFixedBuffer> b) : FramerBase("m", std::move(b)), id(i) {}
    void ResetState() override { lg->resets[id] |= 1; }
    void InitAttributes() override { lg->resets[id] |= 2; }
    STATUS GetFrame(unsigned char* o, uint32_t n, MetaDataBase& md, bool meta) override
    {
        lg->wrong |= (o != out) | (n != outsize) | !meta;
        uint8_t s = __vc_u8("status");
        STATUS st = s == 0 ? STATUS::SUCCESS : s == 1 ? STATUS::INCOMPLETE : s == 2 ? STATUS::BUFFER_FULL : STATUS::UNKNOWN;
        uint32_t len = __vc_u32("len");
        __vc_assume(((s == 1) | (s == 2)) | ((len > 0) & (len <= buf->size()) & (len <= n)));
        md.uiLength = len;
        md.eFormat = HEADER_FORMAT::BINARY;
        unsigned c = lg->calls++;
        if (c < MAX)
        {
            lg->order[c] = id;
            lg->st[c] = st;
            lg->len[c] = len;
        }
        return st;
    }
};

template <unsigned N> void run()
{
    Any<B> a;
    __vc_unroll(10);
    __vc_assume(a.cap <= MAXCAP);
#ifdef VC_NATIVE
    shape(*a.fb);
#endif
    lg = new (__vc_obj(sizeof(Log), "log")) Log;
    buf = a.fb;
    uint64_t size = buf->size();
    const B* data = buf->data();
    outsize = __vc_u32("outsize");
    __vc_assume((outsize > 0) & (outsize <= MAXCAP));
    out = static_cast<B*>(__vc_obj(outsize, "out"));
    uint64_t k = __vc_u64("k");
    auto at = [&](uint64_t i) { return __vc_peek8(data + i) & static_cast<B>(-static_cast<int>(i < size)); };
    B oldk = at(k), dstk = __vc_peek8(out + k);
    auto* m = new (__vc_obj(sizeof(FramerManager), "manager")) FramerManager(std::vector<std::string>{});
    m->pclMyFixedBuffer = std::shared_ptr<UCharFixedBuffer>(std::shared_ptr<UCharFixedBuffer>(), a.fb);
    m->SetReportUnknownBytes(__vc_bool("report"));
    m->framerRegistry.reserve(N);
    const MetaDataBase* mds[MAX] = {};
    for (unsigned i = 0; i < N; i++)
    {
        auto md = std::make_unique<MetaDataBase>();
        mds[i] = md.get();
        m->framerRegistry.emplace_back(std::string("m"), i, std::make_unique<Member>(i, m->pclMyFixedBuffer), std::move(md));
    }
    MetaDataBase* md = nullptr;
    STATUS st = m->GetFrame(out, outsize, md);
    a.check();
    uint64_t n = buf->size();
    const B* d = buf->data();
    // what the framers said
    const Log& l = *lg;
    unsigned success = MAX, known = MAX;
    uint64_t least = size;
    bool order = true;
    for (unsigned c = 0; c < N; c++)
    {
        if (c >= l.calls) { break; }
        order &= l.order[c] == c;
        if (l.st[c] == STATUS::SUCCESS) { success = c; }
        else if (l.st[c] != STATUS::UNKNOWN) { known = c; }
        else { least = l.len[c] < least ? l.len[c] : least; }
    }
    least = least < outsize ? least : outsize;
    if (size == 0)
    {
        __vc_assert((st == STATUS::BUFFER_EMPTY) & (n == 0), "empty");
        return;
    }
    __vc_assert(!l.wrong & order & (l.calls <= N) & ((l.calls == N) | (success != MAX)), "asks-every-framer-in-order-until-one-succeeds");
    bool frame = success != MAX, unknown = !frame & (known == MAX);
    uint64_t took = frame ? l.len[success] : unknown ? least : 0;
    bool handed = frame | (unknown & m->bMyReportUnknownBytes);
    __vc_assert(frame ? st == STATUS::SUCCESS : unknown ? st == STATUS::UNKNOWN : st != STATUS::SUCCESS && st != STATUS::UNKNOWN, "status");
    __vc_assert(!(frame | unknown) | (md != nullptr && md->uiLength == took), "reports-the-length-consumed");
    __vc_assert(!frame | (md == mds[success % MAX]), "metadata-of-the-framer-that-succeeded");
    __vc_assert(!unknown | (md != nullptr && md->eFormat == HEADER_FORMAT::UNKNOWN), "unknown-format");
    __vc_assert(n == size - took, "consumes-the-frame-or-the-bytes-no-framer-claims");
    __vc_assert((k < took) | (k >= size) | (__vc_peek8(d + (k - took)) == oldk), "keeps-the-bytes-behind");
    __vc_assert(!handed | (k >= took) | (__vc_peek8(out + k) == oldk), "hands-out-the-bytes-consumed");
    __vc_assert((handed & (k < took)) | (k >= outsize) | (__vc_peek8(out + k) == dstk), "leaves-the-rest-of-the-callers-buffer");
    bool resets = true, ids = true;
    for (unsigned i = 0; i < N; i++)
    {
        resets &= l.resets[i] == 3;
        // the framer that succeeded comes first, the others keep their order
        unsigned want = !frame ? i : i == 0 ? success : i <= success ? i - 1 : i;
        const auto& e = m->framerRegistry[i];
        ids &= (e.framerId == want) & (e.metadataInstance.get() == mds[want % MAX]) & (static_cast<const Member*>(e.framerInstance.get())->id == want);
    }
    __vc_assert(!(frame | unknown) | resets, "framers-restart-after-consuming");
    __vc_assert(ids & (m->framerRegistry.size() == N), "framer-that-succeeded-moves-to-the-front");
    if (unknown) { __vc_cover("unknown"); }
    if constexpr (N > 0)
    {
        if (frame) { __vc_cover("frame"); }
        else if (!unknown) { __vc_cover("other"); }
    }
}
} // namespace member
extern "C" void drv_manager_0() { member::run<0>(); }
extern "C" void drv_manager_1() { member::run<1>(); }
extern "C" void drv_manager_2() { member::run<2>(); }
extern "C" void drv_manager_3() { member::run<3>(); }
extern "C" void drv_manager_5() { member::run<5>(); }
