// Bit-field helpers of the range decompressor.
#include "vc.h"
#include <array>
#include <limits>
#include "novatel_edie/decoders/oem/rangecmp/common.hpp"
using namespace novatel::edie;
using namespace novatel::edie::oem;

// bit k of the little-endian bit stream that starts at p
static inline uint64_t bitAt(const unsigned char* p, uint64_t k) { return (p[k >> 3] >> (k & 7)) & 1u; }

struct Stream
{
    uint32_t left, off;
    unsigned char *base, *ptr;
    Stream()
    {
        left = __vc_u32("bytes-left");
        off = __vc_u32("bit-offset");
        __vc_assume(left < (1u << 28));
        __vc_assume(off < 8 && (left > 0 || off == 0));
        base = static_cast<unsigned char*>(__vc_obj(left, "data"));
        ptr = base;
    }
};

template <typename T, typename R> static void checkTaken(const Stream& s, bool threw, T r, uint32_t bits, uint32_t left0, uint32_t off0)
{
    const uint64_t avail = uint64_t(left0) * 8 - off0;
    __vc_assert(threw == (bits > avail), "refused-exactly-when-bits-run-out");
    if (threw)
    {
        __vc_assert(s.ptr == s.base && s.left == left0 && s.off == off0, "refusal-consumes-nothing");
        __vc_cover("refused");
        return;
    }
    __vc_cover("taken");
    const uint64_t before = off0, after = uint64_t(s.ptr - s.base) * 8 + s.off;
    __vc_assert(s.off < 8, "offset-below-8");
    __vc_assert(after == before + bits, "advances-by-exactly-the-field");
    __vc_assert(uint64_t(s.ptr - s.base) + s.left == left0, "bytes-left-follows-the-pointer");
    const R v = static_cast<R>(r);
    const uint32_t k = __vc_u32("bit");
    if (k < bits) { __vc_assert(((uint64_t(v) >> k) & 1u) == bitAt(s.base, off0 + k), "bit-of-the-stream"); }
    if (bits < 64 && sizeof(R) * 8 > bits) { __vc_assert((uint64_t(v) >> bits) == 0, "no-bits-beyond-the-field"); }
}
template <typename T, typename R, uint32_t B> static void extractFixed()
{
    Stream s;
    const uint32_t left0 = s.left, off0 = s.off;
    bool threw = false;
    T r{};
    try { r = ExtractBitfield<T, B>(&s.ptr, s.left, s.off); }
    catch (const std::runtime_error&) { threw = true; }
    checkTaken<T, R>(s, threw, r, B, left0, off0);
}
#define FX(N, T, R, B) extern "C" void drv_bits_##N() { extractFixed<T, R, B>(); }
FX(b1, bool, uint8_t, 1)
FX(u8_3, uint8_t, uint8_t, 3)
FX(u8_4, uint8_t, uint8_t, 4)
FX(i8_5, int8_t, uint8_t, 5)
FX(u16_16, uint16_t, uint16_t, 16)
FX(u64_16, uint64_t, uint64_t, 16)
FX(u64_64, uint64_t, uint64_t, 64)
FX(i64_37, int64_t, uint64_t, 37)
FX(i64_20, int64_t, uint64_t, 20)
FX(i32_23, int32_t, uint32_t, 23)
FX(i32_26, int32_t, uint32_t, 26)
FX(i32_28, int32_t, uint32_t, 28)
FX(i32_14, int32_t, uint32_t, 14)
FX(i32_19, int32_t, uint32_t, 19)
FX(i32_16, int32_t, uint32_t, 16)
FX(i32_18, int32_t, uint32_t, 18)
FX(f_11, float, uint32_t, 11)
FX(u64_61, uint64_t, uint64_t, 61)

template <typename T> static void extractDyn()
{
    Stream s;
    const uint32_t left0 = s.left, off0 = s.off, bits = __vc_u32("bits");
    __vc_assume(bits <= sizeof(T) * 8);
    bool threw = false;
    T r{};
    try { r = ExtractBitfield<T>(&s.ptr, s.left, s.off, bits); }
    catch (const std::runtime_error&) { threw = true; }
    checkTaken<T, T>(s, threw, r, bits, left0, off0);
}
extern "C" void drv_bits_dyn_u16() { extractDyn<uint16_t>(); }
extern "C" void drv_bits_dyn_u64() { extractDyn<uint64_t>(); }
extern "C" void drv_bits_dyn_toowide()
{
    Stream s;
    const uint32_t left0 = s.left, off0 = s.off, bits = __vc_u32("bits");
    __vc_assume(bits > 16);
    bool threw = false;
    try { (void)ExtractBitfield<uint16_t>(&s.ptr, s.left, s.off, bits); }
    catch (const std::runtime_error&) { threw = true; }
    __vc_assert(threw, "field-wider-than-the-result-is-refused");
    __vc_assert(s.ptr == s.base && s.left == left0 && s.off == off0, "refusal-consumes-nothing");
    __vc_cover("end");
}

// population count, lowest set bit
template <typename T> static uint32_t popSpec(T v)
{
    uint32_t n = 0;
    for (uint32_t i = 0; i < sizeof(T) * 8; i++) { n += static_cast<uint32_t>((v >> i) & 1); }
    return n;
}
template <typename T> static void lsb()
{
    T v = static_cast<T>(__vc_u64("v"));
    __vc_unroll(sizeof(T) * 8);
    const uint32_t w = sizeof(T) * 8, k = __vc_u32("k");
    uint32_t l = Lsb(v);
    if (v == 0) { __vc_assert(l == w, "no-bit-set"); }
    else
    {
        __vc_assert(l < w && ((v >> l) & 1) == 1, "points-at-a-set-bit");
        if (k < l) { __vc_assert(((v >> k) & 1) == 0, "lower-bits-clear"); }
        T rest = v;
        __vc_assert(PopLsb(rest) == l, "pop-returns-lowest");
        __vc_assert(rest == static_cast<T>(v & ~(static_cast<T>(1) << l)), "pop-clears-exactly-that-bit");
        __vc_cover("nonzero");
    }
    __vc_cover("end");
}
extern "C" void drv_lsb_u16() { lsb<uint16_t>(); }
extern "C" void drv_lsb_u32() { lsb<uint32_t>(); }
extern "C" void drv_lsb_u64() { lsb<uint64_t>(); }
template <typename T> static void pop()
{
    T v = static_cast<T>(__vc_u64("v"));
    __vc_unroll(sizeof(T) * 8);
    __vc_assert(PopCount(v) == popSpec(v), "number-of-set-bits");
    __vc_cover("end");
}
extern "C" void drv_pop_u16() { pop<uint16_t>(); }
extern "C" void drv_pop_u32() { pop<uint32_t>(); }
extern "C" void drv_pop_u64() { pop<uint64_t>(); }

template <typename T, uint64_t Mask, int Lo, int Bits> static void getf()
{
    uint64_t v = __vc_u64("v");
    T r = GetBitfield<T, Mask>(v);
    __vc_assert(static_cast<T>((v >> Lo) & (Bits < 64 ? (1ull << (Bits & 63)) - 1 : ~0ull)) == r, "field-value");
    __vc_cover("end");
}
