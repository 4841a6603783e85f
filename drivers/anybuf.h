#pragma once
#include "vc.h"
#include "novatel_edie/common/fixed_buffer.hpp"
#include <new>
#include <vector>

// Any state satisfying the representation invariant, built through the real constructor and described only through
// the public accessors: capacity C; size <= C; data() inside the 2*C element storage with room for the contents.
template <typename T> struct Any
{
    uint64_t cap;
    const T* storage;
    FixedBuffer<T>* fb;
    Any()
    {
        cap = __vc_u64("capacity");
        __vc_assume(cap <= (1ULL << 40));
        fb = new (__vc_obj(sizeof(FixedBuffer<T>), "fb")) FixedBuffer<T>(cap);
        storage = fb->data();
#ifdef VC_NATIVE
        if (uint64_t ops = __vc_native_u64("ops") % 8) // a state reached by real operations
        {
            while (--ops)
            {
                uint64_t r = __vc_native_u64("op");
                uint64_t n = (r >> 8) % (cap + 1);
                if (r & 1) { fb->erase_begin(n); }
                else
                {
                    std::vector<T> v(n);
                    for (auto& x : v)
                    {
                        r = r * 6364136223846793005ULL + 1442695040888963407ULL;
                        x = static_cast<T>(((r >> 40) ^ r) & (n & 1 ? 1 : ~0ULL));
                    }
                    if (n) { fb->write(v.data(), n); }
                }
            }
            return;
        }
#endif
        __vc_havoc_ints(fb);
        __vc_havoc(const_cast<T*>(storage), 2 * cap * sizeof(T));
        __vc_trust(true);
        bool ok = inv();
        __vc_assume(ok);
        __vc_assume(static_cast<uint64_t>(fb->data() - storage) <= 2 * cap); // implied by inv(); helps the solvers
        __vc_trust(false);
    }
    bool inv() const
    {
        int64_t head = fb->data() - storage;
        return (fb->capacity() == cap) & (fb->size() <= cap) & (head >= 0) & (static_cast<uint64_t>(head) <= 2 * cap - fb->size());
    }
    void check() const
    {
        __vc_assert(inv(), "invariant-preserved");
        __vc_assert(fb->available_space() == cap - fb->size(), "available-space");
        __vc_assert(fb->empty() == (fb->size() == 0), "empty");
        __vc_assert(fb->full() == (fb->size() == cap), "full");
    }
};
