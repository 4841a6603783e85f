// Contract of FixedBuffer<unsigned char>::search_chars for its callers: the first position of the window [start, start + count) at which
// the pattern matches, completely or as a prefix that the end of the window cuts off; npos when there is none.
// "No earlier match" is stated at the positions vc_ghost_k (any positions; the statement holds for each of them).
// Discharged against the code by drv_search_1, drv_search_2, drv_search_3.
#pragma once
#include "anybuf.h"
#include <array>
uint64_t vc_ghost_k[4];
// a universally quantified precondition of the driver, instantiated at the position a search returns
void (*vc_search_hook)(const void*, uint64_t);
const void* vc_search_hook_arg;
template <size_t M> inline uint64_t search_contract(const FixedBuffer<unsigned char>* self, const std::array<unsigned char, M>* values, uint64_t start, uint64_t count)
{
    uint64_t size = self->size();
    const unsigned char* data = self->data();
    uint64_t avail = start < size ? size - start : 0;
    uint64_t end = start + (count < avail ? count : avail);
    uint64_t r = __vc_any64();
    auto match = [&](uint64_t k) {
        bool b = (k >= start) & (k < end);
        for (size_t m = 0; m < M; m++) { b &= (k + m >= end) | (__vc_peek8(data + k + m) == (*values)[m]); }
        return b;
    };
    __vc_assume((r == ~0ULL) | match(r));
    for (int g = 0; g < 4; g++) { __vc_assume(!match(vc_ghost_k[g]) | (r <= vc_ghost_k[g])); }
    vc_search_hook(vc_search_hook_arg, r);
    return r;
}
extern "C"
{
    uint64_t vcc_search_chars_1(const FixedBuffer<unsigned char>* s, const std::array<unsigned char, 1>* v, uint64_t a, uint64_t n) { return search_contract<1>(s, v, a, n); }
    uint64_t vcc_search_chars_2(const FixedBuffer<unsigned char>* s, const std::array<unsigned char, 2>* v, uint64_t a, uint64_t n) { return search_contract<2>(s, v, a, n); }
    uint64_t vcc_search_chars_3(const FixedBuffer<unsigned char>* s, const std::array<unsigned char, 3>* v, uint64_t a, uint64_t n) { return search_contract<3>(s, v, a, n); }
}
