// Verification primitives. Uninterpreted for the VC generator (their meaning is in vcg/contracts_libc.py).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C"
{
    uint8_t __vc_u8(const char* name);    // arbitrary value
    uint16_t __vc_u16(const char* name);
    uint32_t __vc_u32(const char* name);
    uint64_t __vc_u64(const char* name);
    bool __vc_bool(const char* name);
    double __vc_f64(const char* name);
    float __vc_f32(const char* name);
    void* __vc_obj(uint64_t size, const char* name); // fresh object of `size` bytes, arbitrary contents
    void __vc_assume(bool);                          // precondition
    uint64_t __vc_native_u64(const char* name);      // native runs only: a draw that countermodels do not have (0 there)
    uint8_t __vc_peek8(const void* p);               // ghost read: the byte at p, arbitrary when p is outside its object
    uint64_t __vc_any64();                           // contracts only: an arbitrary value that is not an input
    void __vc_trust(bool);                           // on: well-definedness of the following expressions is part of the precondition
    void __vc_assert(bool, const char* label);       // postcondition
    void __vc_same_f64(double a, double b, const char* label); // postcondition: the same value (or both NaN)
    void __vc_same_f32(float a, float b, const char* label);
    void __vc_cover(const char* label);              // must be reachable (vacuity guard)
    void __vc_havoc_ints(void* obj);                 // arbitrary contents for all non-pointer bytes of an object
    void __vc_havoc(void* p, uint64_t n);
    void __vc_ghost(const char* name, uint64_t value);
    void __vc_ghost_ptr(const char* name, const void* value);
    uint64_t __vc_split(uint64_t v, uint64_t n);     // case split v over 0..n-1
    void __vc_unroll(uint64_t n); // from here on, loops are unrolled with case splits up to n times; that n suffices is an obligation
    // loop-invariant hints: candidates "position < loop variable ==> pred" (discarded when not inductive)
    void __vc_mono(uint64_t position, bool pred);
    void __vc_mono_ptr(const void* position, bool pred);
    // candidates pred(arg, x) for every 64-bit loop variable x, and pred(arg) of the state at loop heads
    void __vc_inv(bool (*pred)(const void* arg, uint64_t x), const void* arg);
    void __vc_inv_state(bool (*pred)(const void* arg), const void* arg);
    // a universally quantified precondition, instantiated at the states at loop heads: pred(arg) holds by the precondition
    void __vc_loop_assume(bool (*pred)(const void* arg), const void* arg);
    // candidate termination measure: measure(arg) of the state at loop heads decreases with every iteration
    void __vc_measure(uint64_t (*measure)(const void* arg), const void* arg);
    // declares a ghost CRC stream: R(k) = bit-serial reference register after the first k bytes at buf, R(0)=init
    void __vc_crc_begin(const void* buf, uint64_t n, uint64_t init, int width, uint64_t poly, int rev);
    void __vc_crc_assert(uint64_t result, int stream, uint64_t n, const char* label);
}
