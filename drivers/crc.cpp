#include "vc.h"
#include "novatel_edie/common/crc.hpp"
#include "novatel_edie/decoders/oem/crc.hpp"
using namespace novatel::edie;

// ---- contract: block CRC over any buffer equals the bit-serial reference register
#define BLOCK(NAME, T, POLY, REV)                                                                                                                    \
    extern "C" void drv_block_##NAME()                                                                                                               \
    {                                                                                                                                                \
        uint32_t n = __vc_u32("count");                                                                                                              \
        const unsigned char* buf = static_cast<const unsigned char*>(__vc_obj(n, "buf"));                                                            \
        T init = static_cast<T>(__vc_u64("init"));                                                                                                   \
        __vc_crc_begin(buf, n, init, sizeof(T) * 8, POLY, REV);                                                                                      \
        T r = CalculateBlockCrc<T, POLY, REV>(buf, n, init);                                                                                         \
        __vc_crc_assert(r, 0, n, "block-equals-reference");                                                                                          \
        __vc_cover("end");                                                                                                                           \
    }                                                                                                                                                \
    extern "C" void drv_char_##NAME()                                                                                                                \
    {                                                                                                                                                \
        const unsigned char* buf = static_cast<const unsigned char*>(__vc_obj(1, "buf"));                                                            \
        T c = static_cast<T>(__vc_u64("crc"));                                                                                                       \
        __vc_crc_begin(buf, 1, c, sizeof(T) * 8, POLY, REV);                                                                                         \
        CalculateCharacterCrc<T, POLY, REV>(c, buf[0]);                                                                                              \
        __vc_crc_assert(c, 0, 1, "character-equals-reference-step");                                                                                 \
        __vc_cover("end");                                                                                                                           \
    }                                                                                                                                                \
    extern "C" void drv_view_##NAME()                                                                                                                \
    {                                                                                                                                                \
        uint64_t n = __vc_u64("count");                                                                                                              \
        const char* buf = static_cast<const char*>(__vc_obj(n, "buf"));                                                                              \
        T init = static_cast<T>(__vc_u64("init"));                                                                                                   \
        __vc_crc_begin(buf, n, init, sizeof(T) * 8, POLY, REV);                                                                                      \
        T r = CalculateBlockCrc<T, POLY, REV>(std::string_view(buf, n), init);                                                                       \
        __vc_crc_assert(r, 0, n, "string-view-equals-reference");                                                                                    \
        __vc_cover("end");                                                                                                                           \
    }

BLOCK(u8_f, uint8_t, 0x2F, false)
BLOCK(u8_r, uint8_t, 0xF4, true)
BLOCK(u16_f, uint16_t, 0x1021, false)
BLOCK(u16_r, uint16_t, 0x8408, true)
BLOCK(u32_f, uint32_t, 0xF4ACFB13, false)
BLOCK(u32_kr, uint32_t, 0xC8DF352F, true)
BLOCK(u32_r, uint32_t, 0xEDB88320, true)
BLOCK(u32_n, uint32_t, 0x04C11DB7, false)
BLOCK(u64_f, uint64_t, 0x42F0E1EBA9EA3693ULL, false)
BLOCK(u64_r, uint64_t, 0xC96C5795D7870F42ULL, true)

// ---- the backward compatible CRC-32 entry points
extern "C" void drv_compat_block()
{
    uint32_t n = __vc_u32("count");
    const unsigned char* buf = static_cast<const unsigned char*>(__vc_obj(n, "buf"));
    uint32_t init = __vc_u32("init");
    __vc_crc_begin(buf, n, init, 32, 0xEDB88320, 1);
    __vc_crc_assert(CalculateBlockCrc32(buf, n, init), 0, n, "compat-block");
    __vc_cover("end");
}
extern "C" void drv_compat_block0()
{
    uint32_t n = __vc_u32("count");
    const unsigned char* buf = static_cast<const unsigned char*>(__vc_obj(n, "buf"));
    __vc_crc_begin(buf, n, 0, 32, 0xEDB88320, 1);
    __vc_crc_assert(CalculateBlockCrc32(buf, n), 0, n, "compat-block-default-init");
    __vc_cover("end");
}
extern "C" void drv_compat_view()
{
    uint64_t n = __vc_u64("count");
    const char* buf = static_cast<const char*>(__vc_obj(n, "buf"));
    __vc_crc_begin(buf, n, 0, 32, 0xEDB88320, 1);
    __vc_crc_assert(CalculateBlockCrc32(std::string_view(buf, n)), 0, n, "compat-view");
    __vc_cover("end");
}
extern "C" void drv_compat_char()
{
    const unsigned char* buf = static_cast<const unsigned char*>(__vc_obj(1, "buf"));
    uint32_t c = __vc_u32("crc");
    __vc_crc_begin(buf, 1, c, 32, 0xEDB88320, 1);
    CalculateCharacterCrc32(c, buf[0]);
    __vc_crc_assert(c, 0, 1, "compat-char");
    __vc_cover("end");
}

// ---- the OEM message CRC
extern "C" void drv_oem_block()
{
    uint32_t n = __vc_u32("count");
    const unsigned char* buf = static_cast<const unsigned char*>(__vc_obj(n, "buf"));
    uint32_t init = __vc_u32("init");
    __vc_crc_begin(buf, n, init, 32, 0xEDB88320, 1);
    uint32_t r = oem::CalculateBlockCrc32(buf, n, init);
    __vc_crc_assert(r, 0, n, "oem-block-equals-reference");
    if (n > 48) { __vc_cover("long"); }
    else { __vc_cover("short"); }
}
extern "C" void drv_oem_block0()
{
    uint32_t n = __vc_u32("count");
    const unsigned char* buf = static_cast<const unsigned char*>(__vc_obj(n, "buf"));
    __vc_crc_begin(buf, n, 0, 32, 0xEDB88320, 1);
    __vc_crc_assert(oem::CalculateBlockCrc32(buf, n), 0, n, "oem-block-default-init");
    __vc_cover("end");
}
extern "C" void drv_oem_view()
{
    uint64_t n = __vc_u64("count");
    const char* buf = static_cast<const char*>(__vc_obj(n, "buf"));
    __vc_crc_begin(buf, n, 0, 32, 0xEDB88320, 1);
    __vc_crc_assert(oem::CalculateBlockCrc32(std::string_view(buf, n)), 0, n, "oem-view");
    __vc_cover("end");
}
extern "C" void drv_oem_char()
{
    const unsigned char* buf = static_cast<const unsigned char*>(__vc_obj(1, "buf"));
    uint32_t c = __vc_u32("crc");
    __vc_crc_begin(buf, 1, c, 32, 0xEDB88320, 1);
    oem::CalculateCharacterCrc32(c, buf[0]);
    __vc_crc_assert(c, 0, 1, "oem-char");
    __vc_cover("end");
}

// ---- the compatible entry points with another polynomial and bit order
#define COMPAT(NAME, POLY, REV)                                                                                                                      \
    extern "C" void drv_compat_char_##NAME()                                                                                                         \
    {                                                                                                                                                \
        const unsigned char* buf = static_cast<const unsigned char*>(__vc_obj(1, "buf"));                                                            \
        uint32_t c = __vc_u32("crc");                                                                                                                \
        __vc_crc_begin(buf, 1, c, 32, POLY, REV);                                                                                                    \
        CalculateCharacterCrc32<POLY, REV>(c, buf[0]);                                                                                               \
        __vc_crc_assert(c, 0, 1, "compat-char-other-polynomial");                                                                                    \
        __vc_cover("end");                                                                                                                           \
    }                                                                                                                                                \
    extern "C" void drv_compat_view_##NAME()                                                                                                         \
    {                                                                                                                                                \
        uint64_t n = __vc_u64("count");                                                                                                              \
        const char* buf = static_cast<const char*>(__vc_obj(n, "buf"));                                                                              \
        __vc_crc_begin(buf, n, 0, 32, POLY, REV);                                                                                                    \
        __vc_crc_assert(CalculateBlockCrc32<POLY, REV>(std::string_view(buf, n)), 0, n, "compat-view-other-polynomial");                             \
        __vc_cover("end");                                                                                                                           \
    }                                                                                                                                                \
    extern "C" void drv_compat_block_##NAME()                                                                                                        \
    {                                                                                                                                                \
        uint32_t n = __vc_u32("count");                                                                                                              \
        const unsigned char* buf = static_cast<const unsigned char*>(__vc_obj(n, "buf"));                                                            \
        uint32_t init = __vc_u32("init");                                                                                                            \
        __vc_crc_begin(buf, n, init, 32, POLY, REV);                                                                                                 \
        __vc_crc_assert(CalculateBlockCrc32<POLY, REV>(buf, n, init), 0, n, "compat-block-other-polynomial");                                        \
        __vc_cover("end");                                                                                                                           \
    }
COMPAT(n, 0x04C11DB7, false)
COMPAT(kr, 0xC8DF352F, true)
