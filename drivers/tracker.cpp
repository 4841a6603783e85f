#include "vc.h"
#include "novatel_edie/decoders/common/message_counts_tracker.hpp"
#include <tuple>
#include <new>
using namespace novatel::edie;

enum class Fmt : int32_t { A };
using TupleKey = std::tuple<uint16_t, Fmt, uint8_t>;
struct TupleHash
{
    std::size_t operator()(const TupleKey& k) const
    {
        return (static_cast<std::size_t>(std::get<1>(k)) << 24) | (static_cast<std::size_t>(std::get<0>(k)) << 8) | std::get<2>(k);
    }
};
template <typename K> K key(const char* n);
template <> uint16_t key<uint16_t>(const char* n) { return __vc_u16(n); }
template <> uint64_t key<uint64_t>(const char* n) { return __vc_u64(n); }
template <> TupleKey key<TupleKey>(const char* n)
{
    uint16_t a = __vc_u16(n);
    Fmt f = static_cast<Fmt>(__vc_u32(n));
    return TupleKey{a, f, __vc_u8(n)};
}
extern "C" void __vc_any_map(void*);

// a tracker whose counts are an arbitrary finite map
template <typename K, typename H> struct Any
{
    using T = MessageCountsTracker<K, H>;
    T* t;
    Any()
    {
        t = new (__vc_obj(sizeof(T), "tracker")) T();
#ifdef VC_NATIVE
        auto& m = const_cast<typename T::CountsMap&>(t->GetCounts());
        for (uint64_t n = __vc_native_u64("entries") % 12; n > 0; n--)
        {
            K k = key<K>("entry-key");
            m[k] = __vc_u64("entry-count");
        }
#else
        __vc_any_map(const_cast<typename T::CountsMap*>(&t->GetCounts()));
#endif
    }
    ~Any() { t->~T(); }
};
template <typename K, typename H> static bool has(const MessageCountsTracker<K, H>& t, const K& k) { return t.GetCounts().find(k) != t.GetCounts().end(); }
template <typename K, typename H> static uint64_t cnt(const MessageCountsTracker<K, H>& t, const K& k)
{
    auto it = t.GetCounts().find(k);
    return it == t.GetCounts().end() ? 0 : it->second;
}

template <typename K, typename H> void increment()
{
    Any<K, H> a;
    K k = key<K>("key"), o = key<K>("other");
    bool hadO = has<K, H>(*a.t, o);
    uint64_t c0 = cnt<K, H>(*a.t, k), o0 = cnt<K, H>(*a.t, o);
    a.t->Increment(k);
    __vc_assert(has<K, H>(*a.t, k), "incremented-key-present");
    __vc_assert(cnt<K, H>(*a.t, k) == c0 + 1, "count-grows-by-one");
    if (!(o == k))
    {
        __vc_cover("other");
        __vc_assert(has<K, H>(*a.t, o) == hadO, "other-keys-presence-kept");
        __vc_assert(cnt<K, H>(*a.t, o) == o0, "other-counts-kept");
    }
    else { __vc_cover("same"); }
    __vc_assert(&a.t->GetCounts() == &a.t->GetCounts(), "counts-by-reference");
}
template <typename K, typename H> void twice()
{
    Any<K, H> a;
    K k = key<K>("key"), o = key<K>("other");
    uint64_t c0 = cnt<K, H>(*a.t, k);
    a.t->Increment(k);
    a.t->Increment(o);
    a.t->Increment(k);
    __vc_assert(cnt<K, H>(*a.t, k) == c0 + (o == k ? 3 : 2), "interleaved-increments-add-up");
    __vc_cover("end");
}
// any three operations after an arbitrary state: the counts follow the history (state outside the map would show here)
template <typename K, typename H> void history()
{
    Any<K, H> a;
    K k = key<K>("key"), o = key<K>("other");
    uint64_t c = cnt<K, H>(*a.t, k);
    bool p = has<K, H>(*a.t, k);
    auto step = [&](bool mayReset) {
        if (mayReset && __vc_bool("reset"))
        {
            a.t->Reset();
            c = 0;
            p = false;
        }
        else if (__vc_bool("same"))
        {
            a.t->Increment(k);
            c++;
            p = true;
        }
        else
        {
            __vc_assume(!(o == k));
            a.t->Increment(o);
        }
    };
    step(false);
    step(true);
    step(true);
    step(false);
    __vc_assert(has<K, H>(*a.t, k) == p, "present-iff-counted-since-reset");
    __vc_assert(cnt<K, H>(*a.t, k) == c, "count-follows-history");
    __vc_cover("end");
}
template <typename K, typename H> void reset()
{
    Any<K, H> a;
    K k = key<K>("key"), o = key<K>("other");
    a.t->Reset();
    __vc_assert(!has<K, H>(*a.t, k), "reset-forgets-every-key");
    __vc_assert(a.t->GetCounts().empty(), "reset-leaves-no-keys");
    a.t->Increment(k);
    __vc_assert(cnt<K, H>(*a.t, k) == 1, "first-count-after-reset-is-1");
    __vc_assert(has<K, H>(*a.t, o) == (o == k), "only-counted-keys-after-reset");
    __vc_cover("end");
}
template <typename K, typename H> void fresh()
{
    using T = MessageCountsTracker<K, H>;
    T t;
    K k = key<K>("key");
    __vc_assert(!has<K, H>(t, k), "new-tracker-has-no-keys");
    __vc_assert(t.GetCounts().empty(), "new-tracker-empty");
    t.Increment(k);
    __vc_assert(cnt<K, H>(t, k) == 1, "first-count-is-1");
    __vc_cover("end");
}
#define D(NAME, K, H)                                                                                                                                \
    extern "C" void drv_tracker_inc_##NAME() { increment<K, H>(); }                                                                                  \
    extern "C" void drv_tracker_twice_##NAME() { twice<K, H>(); }                                                                                    \
    extern "C" void drv_tracker_hist_##NAME() { history<K, H>(); }                                                                                   \
    extern "C" void drv_tracker_reset_##NAME() { reset<K, H>(); }                                                                                    \
    extern "C" void drv_tracker_fresh_##NAME() { fresh<K, H>(); }
D(id, uint16_t, std::hash<uint16_t>)
D(u64, uint64_t, std::hash<uint64_t>)
D(tuple, TupleKey, TupleHash)
