// What the framer drivers share: a framer in an arbitrary state on a buffer of arbitrary bytes, and what one call does to bytes.
#pragma once
#include "anybuf.h"
using namespace novatel::edie;
using namespace novatel::edie::oem;

using B = unsigned char;
constexpr uint64_t MAXCAP = 1ULL << 30;

#ifdef VC_NATIVE
// native runs: contents made of messages, damaged and cut in places
inline void shape(FixedBuffer<B>& fb)
{
    uint64_t r = __vc_native_u64("shape");
    if (r % 4 == 0) { return; }
    auto next = [&r](uint64_t n) {
        r = r * 6364136223846793005ULL + 1442695040888963407ULL;
        return (r >> 33) % n;
    };
    std::string s;
    auto hex = [&s](uint32_t v, unsigned n) {
        while (n--) { s += "0123456789abcdef"[(v >> (4 * n)) & 15]; }
    };
    auto text = [&](const char* chars) {
        for (uint64_t n = next(12); n > 0; n--) { s += chars[next(std::char_traits<char>::length(chars))]; }
    };
    for (uint64_t n = 1 + next(4); n > 0; n--)
    {
        size_t b = s.size();
        switch (next(9))
        {
        case 0:
        case 1: {
            bool sh = next(2);
            unsigned len = static_cast<unsigned>(next(16) ? next(20) : next(256));
            s += std::string("\xAA\x44") + (sh ? '\x13' : '\x12');
            for (unsigned i = 3; i < (sh ? 12u : 28u) + len; i++) { s += static_cast<char>(next(256)); }
            if (sh) { s[b + 3] = static_cast<char>(len); }
            else
            {
                s[b + 8] = static_cast<char>(len);
                s[b + 9] = 0;
            }
            uint32_t c = CalculateBlockCrc32(reinterpret_cast<const B*>(s.data()) + b, static_cast<uint32_t>(s.size() - b));
            for (int i = 0; i < 4; i++) { s += static_cast<char>(c >> (8 * i)); }
            break;
        }
        case 2:
        case 3: {
            s += next(2) ? '#' : '%';
            text("ABC*;,#%<\r\n1");
            uint32_t c = CalculateBlockCrc32(reinterpret_cast<const B*>(s.data()) + b + 1, static_cast<uint32_t>(s.size() - b - 1));
            s += '*';
            hex(c, 8);
            s += "\r\n";
            break;
        }
        case 4: s += next(2) ? "<OK\r\n" : "<ERROR:x\r\n"; break;
        case 5:
        case 6:
            s += '<';
            text("ABC\r<E");
            s += "\r\n";
            for (uint64_t l = next(4); l > 0; l--)
            {
                s += "< ";
                text("ABC 1\r\n<");
                s += "\r\n";
            }
            if (next(2)) { s += "[COM1]"; }
            break;
        case 7: {
            const char* sync[] = {"\xAA", "\xAA\x44", "\xAA\x44\x12", "\xAA\x44\x13", "#", "%", "<", "<A", "< ", "*", "\r", "\r\n"};
            s += sync[next(12)];
            break;
        }
        default:
            for (uint64_t l = next(next(8) ? 6 : 600); l > 0; l--) { s += static_cast<char>(next(256)); }
        }
        if (next(6) == 0 && s.size() > b) { s[b + next(s.size() - b)] ^= static_cast<char>(1u << next(8)); }
    }
    if (next(2)) { s.resize(next(s.size() + 1)); }
    fb.erase_begin(fb.size());
    if (s.size() > fb.capacity()) { s.resize(fb.capacity()); }
    (void)fb.write(reinterpret_cast<const B*>(s.data()), s.size());
}
#endif

// the fields a framer keeps between calls, arbitrary; its buffer holds arbitrary bytes
template <class F> struct AnyFramer
{
    Any<B> a;
    F* f;
    const B* data;
    uint64_t size;
    uint32_t count0;
    AnyFramer()
    {
        __vc_assume(a.cap <= MAXCAP);
        vc_search_hook = [](const void*, uint64_t) {};
        vc_search_hook_arg = nullptr;
        vc_ghost_k[0] = vc_ghost_k[1] = vc_ghost_k[2] = vc_ghost_k[3] = ~0ULL;
#ifdef VC_NATIVE
        shape(*a.fb);
#endif
        f = new (__vc_obj(sizeof(F), "framer")) F(std::shared_ptr<UCharFixedBuffer>(std::shared_ptr<UCharFixedBuffer>(), a.fb));
        f->SetReportUnknownBytes(__vc_bool("report"));
        data = static_cast<const Any<B>&>(a).fb->data();
        size = a.fb->size();
        count0 = __vc_u32("byteCount");
        __vc_assume(count0 <= size);
        f->uiMyByteCount = count0;
    }
    B at(uint64_t i) const { return __vc_peek8(data + i) & static_cast<B>(-static_cast<int>(i < size)); } // branch-free: fewer paths
};

// The result of the CRC over [p, p + n): the code's own function, whose value is decided by C01 and C02 and opaque here
inline uint32_t crc(const B* p, uint64_t n) { return CalculateBlockCrc32(p, static_cast<uint32_t>(n)); }

// byte conservation, frame by frame: what a call of GetFrame does to the buffer and the caller's memory
template <class A> struct Call
{
    A& a;
    uint32_t outsize;
    B* out;
    uint64_t k; // arbitrary position
    B oldk, dstk;
    MetaDataStruct md;
    STATUS st;
    bool meta;
    uint64_t skip = 0, tail = 0; // bytes of a frame before and after what is handed out of it
    Call(A& a_) : a(a_)
    {
        outsize = __vc_u32("outsize");
        __vc_assume(outsize <= MAXCAP);
        out = static_cast<B*>(__vc_obj(outsize, "out"));
        k = __vc_u64("k");
        oldk = a.at(k);
        dstk = __vc_peek8(out + k);
        meta = __vc_bool("metadataOnly");
    }
    void run() { st = a.f->FramerBase::GetFrame(out, outsize, md, meta); }
    void conserve()
    {
        a.a.check();
        uint64_t n = a.a.fb->size(), len = md.uiLength, all = len;
        if (skip + tail != 0) { all += (st == STATUS::SUCCESS) ? skip + tail : 0; }
        const B* d = static_cast<const Any<B>&>(a.a).fb->data();
        bool took = !meta & ((st == STATUS::SUCCESS) | (st == STATUS::UNKNOWN));
        bool handed = took & ((st == STATUS::SUCCESS) | a.f->bMyReportUnknownBytes);
        __vc_assert(!took | ((all > 0) & (all <= a.size)), "length-within-buffered-bytes");
        __vc_assert(n == a.size - (took ? all : 0), "consumes-exactly-the-reported-length");
        __vc_assert(!took | (k < all) | (k >= a.size) | (__vc_peek8(d + (k - all)) == oldk), "keeps-the-bytes-behind");
        __vc_assert(took | (k >= a.size) | (__vc_peek8(d + k) == oldk), "keeps-the-bytes-otherwise");
        __vc_assert(!handed | (len <= outsize), "fits-the-callers-buffer");
        __vc_assert(!handed | (k < skip) | (k - skip >= len) | (__vc_peek8(out + (k - skip)) == oldk), "hands-out-the-bytes-consumed");
        __vc_assert((handed & (k < len)) | (k >= outsize) | (__vc_peek8(out + k) == dstk), "leaves-the-rest-of-the-callers-buffer");
        __vc_assert(!took | (a.f->uiMyByteCount == 0), "restarts-after-consuming");
    }
};

template <class A> bool crlf(const A& a, uint64_t i) { return (a.at(i) == '\r') & (a.at(i + 1) == '\n'); }
template <class A> bool terminator(const A& a, uint64_t i) { return (a.at(i) == '*') & crlf(a, i + 9); }
inline bool hexdigit(B c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
inline uint32_t hexval(B c) { return (c & 15u) + ((c >> 6) & 1u) * 9u; }

struct Field
{
    bool digits, accepted;
    uint32_t value;
};
// the 8 characters at position i as a CRC
template <class A> Field crc_field(const A& a, uint64_t i, bool ok)
{
    Field f{true, true, 0};
    uint32_t v = 0;
    const char* p = reinterpret_cast<const char*>(a.data + (ok ? i : 0));
    for (unsigned k = 0; k < 8; k++)
    {
        B c = __vc_peek8(p + k);
        f.digits &= hexdigit(c);
        v = (v << 4) | hexval(c);
    }
    f.value = v;
    return f;
}
// the header line of a response
template <class A> bool response(const A& a)
{
    return ((a.at(1) == 'O') & (a.at(2) == 'K')) | ((a.at(1) == 'E') & (a.at(2) == 'R') & (a.at(3) == 'R') & (a.at(4) == 'O') & (a.at(5) == 'R'));
}
