// Message identifiers: full message ID, message type byte, message count key hash, field alignment, abbreviated ASCII prefix.
#include "vc.h"
#include "src/decoders/common/src/common.cpp"
#include "novatel_edie/decoders/oem/common.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"

extern "C" void drv_msgid_layout()
{
    uint32_t id = __vc_u32("id"), sib = __vc_u32("sibling"), fmt = __vc_u32("format"), resp = __vc_u32("response");
    uint32_t full = CreateMsgId(id, sib, fmt, resp);
    // documented layout: bits 0-15 message ID, 16-20 sibling (measurement source), 21-22 format, 23 response, 24-31 clear
    __vc_assert((full & 0xFFFFu) == (id & 0xFFFFu), "id-in-bits-0-15");
    __vc_assert(((full >> 16) & 31u) == (sib & 31u), "sibling-in-bits-16-20");
    __vc_assert(((full >> 21) & 3u) == (fmt & 3u), "format-in-bits-21-22");
    __vc_assert(((full >> 23) & 1u) == (resp & 1u), "response-in-bit-23");
    __vc_assert((full >> 24) == 0, "upper-bits-clear");
    __vc_cover("end");
}
extern "C" void drv_msgid_roundtrip()
{
    uint32_t id = __vc_u32("id") & 0xFFFFu, sib = __vc_u32("sibling") & 31u, fmt = __vc_u32("format") & 3u, resp = __vc_u32("response") & 1u;
    uint16_t id2 = __vc_u16("old-id");
    uint32_t sib2 = __vc_u32("old"), fmt2 = __vc_u32("old"), resp2 = __vc_u32("old");
    UnpackMsgId(CreateMsgId(id, sib, fmt, resp), id2, sib2, fmt2, resp2);
    __vc_assert(id2 == id, "id-survives");
    __vc_assert(sib2 == sib, "sibling-survives");
    __vc_assert(fmt2 == fmt, "format-survives");
    __vc_assert(resp2 == resp, "response-survives");
    __vc_cover("end");
}
extern "C" void drv_msgid_unpack()
{
    uint32_t full = __vc_u32("full");
    uint16_t id = __vc_u16("old-id");
    uint32_t sib = __vc_u32("old"), fmt = __vc_u32("old"), resp = __vc_u32("old");
    UnpackMsgId(full, id, sib, fmt, resp);
    __vc_assert(id == (full & 0xFFFFu), "id");
    __vc_assert(sib == ((full >> 16) & 31u), "sibling");
    __vc_assert(fmt == ((full >> 21) & 3u), "format");
    __vc_assert(resp == ((full >> 23) & 1u), "response");
    __vc_assert(CreateMsgId(id, sib, fmt, resp) == (full & 0xFFFFFFu), "pack-after-unpack");
    __vc_cover("end");
}
extern "C" void drv_msgtype()
{
    uint32_t sib = __vc_u32("sibling"), fmt = __vc_u32("format"), resp = __vc_u32("response");
    uint8_t t = PackMsgType(sib, fmt, resp);
    __vc_assert((t & 31u) == (sib & 31u), "sibling");
    __vc_assert(((t >> 5) & 3u) == (fmt & 3u), "format");
    __vc_assert((t >> 7) == (resp & 1u), "response");
    __vc_assert(t == ((CreateMsgId(__vc_u32("id"), sib, fmt, resp) >> 16) & 0xFFu), "type-byte-is-the-upper-part-of-the-id");
    __vc_cover("end");
}
extern "C" void drv_counts_hash()
{
    using H = novatel::edie::oem::HeaderDecoder;
    H::MessageCountsKey a{__vc_u16("id"), static_cast<novatel::edie::HEADER_FORMAT>(__vc_u8("format")), __vc_u8("sibling")};
    H::MessageCountsKey b{__vc_u16("id"), static_cast<novatel::edie::HEADER_FORMAT>(__vc_u8("format")), __vc_u8("sibling")};
    H::MessageCountsKeyHash h;
    __vc_assert((h(a) == h(b)) == (a == b), "hash-values-differ-exactly-for-different-keys");
    __vc_cover("end");
}
extern "C" void drv_align()
{
    uint64_t size = __vc_u64("size"), start = __vc_u64("start"), ptr = __vc_u64("ptr");
    __vc_assume(size >= 1 && start <= ptr);
    uint64_t pad = novatel::edie::oem::OemAlignmentFunction(size, start, ptr);
    uint64_t al = size < 4 ? size : 4;
    __vc_assert(pad < al, "least-padding");
    __vc_assert((ptr - start + pad) % al == 0, "aligned-after-padding");
    __vc_cover("end");
}
extern "C" void drv_abbrev_prefix()
{
    uint64_t n = __vc_u64("n");
    __vc_assume(n >= 1 && n <= (1ull << 40));
    char* s = static_cast<char*>(__vc_obj(n, "text"));
    __vc_trust(true);
    __vc_assume(s[n - 1] == 0);
    __vc_trust(false);
    auto fmtc = [](char c) { return c == '<' || c == ' ' || c == '\r' || c == '\n'; };
    uint64_t i = __vc_u64("i");
    __vc_assume(i < n);
    __vc_mono_ptr(s + n - 1, false);
    __vc_mono_ptr(s + i, fmtc(s[i]));
    const char* p = s;
    ConsumeAbbrevFormatting(&p);
    uint64_t k = static_cast<uint64_t>(p - s);
    __vc_assert(k < n, "stops-inside-the-text");
    __vc_assert(!fmtc(*p), "stops-at-content");
    if (i < k) { __vc_assert(fmtc(s[i]), "skips-formatting-only"); }
    __vc_cover("end");
}
