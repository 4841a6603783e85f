#include "anybuf.h"


template <typename T> void ctor()
{
    uint64_t cap = __vc_u64("capacity");
    __vc_assume(cap <= (1ULL << 40));
    FixedBuffer<T> fb(cap);
    __vc_assert(fb.size() == 0, "new-buffer-empty");
    __vc_assert(fb.capacity() == cap, "capacity-as-requested");
    __vc_assert(fb.available_space() == cap, "all-space-available");
    __vc_assert(fb.empty(), "empty");
    __vc_assert(fb.full() == (cap == 0), "full");
    __vc_cover("end");
}
template <typename T> void write_()
{
    Any<T> a;
    uint64_t count = __vc_u64("count"), avail = __vc_u64("readable");
    uint64_t size0 = a.fb->size();
    // the source is readable as far as the caller promises, unless the request cannot fit anyway
    __vc_assume(avail <= (1ULL << 41) && (avail >= count || count > a.cap - size0));
    const T* src = static_cast<const T*>(__vc_obj(avail * sizeof(T), "src"));
    uint64_t k = __vc_u64("k"), j = __vc_u64("j");
    T old{}, in{};
    if (k < size0) { old = (*a.fb)[k]; }
    if (j < count && j < avail) { in = src[j]; }
    size_t r = a.fb->write(src, count);
    a.check();
    if (count > a.cap - size0)
    {
        __vc_cover("refused");
        __vc_assert(r == 0, "refused-write-returns-0");
        __vc_assert(a.fb->size() == size0, "refused-write-keeps-size");
    }
    else
    {
        __vc_cover("accepted");
        __vc_assert(r == count, "accepted-write-returns-count");
        __vc_assert(a.fb->size() == size0 + count, "accepted-write-grows-by-count");
        if (j < count) { __vc_assert((*a.fb)[size0 + j] == in, "written-elements-appended"); }
    }
    if (k < size0) { __vc_assert((*a.fb)[k] == old, "existing-elements-kept"); }
}
template <typename T> void write_null()
{
    Any<T> a;
    uint64_t count = __vc_u64("count");
    uint64_t size0 = a.fb->size(), k = __vc_u64("k");
    T old{};
    if (k < size0) { old = (*a.fb)[k]; }
    size_t r = a.fb->write(nullptr, count);
    a.check();
    __vc_assert(r == 0, "null-write-returns-0");
    __vc_assert(a.fb->size() == size0, "null-write-keeps-size");
    if (k < size0) { __vc_assert((*a.fb)[k] == old, "existing-elements-kept"); }
    __vc_cover("end");
}
template <typename T> void erase_()
{
    Any<T> a;
    uint64_t count = __vc_u64("count"), k = __vc_u64("k");
    uint64_t size0 = a.fb->size();
    uint64_t n = count < size0 ? count : size0;
    __vc_assume(k < size0);
    T old = (*a.fb)[k];
    a.fb->erase_begin(count);
    a.check();
    __vc_assert(a.fb->size() == size0 - n, "erase-shrinks-by-count");
    if (k >= n) { __vc_assert((*a.fb)[k - n] == old, "remaining-elements-shift-down"); __vc_cover("kept"); }
    __vc_cover("end");
}
template <typename T> void erase_empty()
{
    Any<T> a;
    __vc_assume(a.fb->size() == 0);
    a.fb->erase_begin(__vc_u64("count"));
    a.check();
    __vc_assert(a.fb->size() == 0, "erase-of-empty");
    __vc_cover("end");
}
template <typename T> void copy_()
{
    Any<T> a;
    uint64_t count = __vc_u64("count"), k = __vc_u64("k");
    uint64_t size0 = a.fb->size();
    uint64_t n = count < size0 ? count : size0;
    uint64_t dn = __vc_u64("dst_elems");
    __vc_assume(dn >= n && dn <= (1ULL << 42));
    T* dst = static_cast<T*>(__vc_obj(dn * sizeof(T), "dst"));
    __vc_assume(k < dn);
    T d0 = dst[k];
    T old{};
    if (k < size0) { old = (*a.fb)[k]; }
    const FixedBuffer<T>& c = *a.fb;
    c.copy_out(dst, count);
    a.check();
    __vc_assert(a.fb->size() == size0, "copy-out-keeps-size");
    if (k < n) { __vc_assert(dst[k] == old, "copied-elements"); }
    else { __vc_assert(dst[k] == d0, "no-write-beyond-copied-count"); }
    if (k < size0) { __vc_assert((*a.fb)[k] == old, "copy-out-keeps-elements"); }
    __vc_cover("end");
}
template <typename T> void copy_null()
{
    Any<T> a;
    a.fb->copy_out(nullptr, __vc_u64("count"));
    a.check();
    __vc_cover("end");
}
template <typename T> void index_()
{
    Any<T> a;
    uint64_t i = __vc_u64("i"), k = __vc_u64("k");
    uint64_t size0 = a.fb->size();
    __vc_assume(i < size0 && k < size0);
    const FixedBuffer<T>& c = *a.fb;
    T old = c[k];
    __vc_assert(c[k] == *(c.data() + k), "index-reads-contiguous-data");
    T v = static_cast<T>(__vc_u64("v"));
    (*a.fb)[i] = v;
    a.check();
    __vc_assert(a.fb->size() == size0, "index-write-keeps-size");
    __vc_assert(c[k] == (k == i ? v : old), "index-write-changes-one-element");
    __vc_cover("end");
}
template <typename T, typename U> void read_()
{
    Any<T> a;
    uint64_t i = __vc_u64("i");
    uint64_t size0 = a.fb->size();
    __vc_assume(i <= size0 && size0 - i >= sizeof(U) / sizeof(T));
    U v = a.fb->template read_value<U>(i);
    U e = 0;
    for (unsigned b = 0; b < sizeof(U) / sizeof(T); b++) { e = static_cast<U>(e | (static_cast<U>((*a.fb)[i + b]) << (8 * sizeof(T) * b))); }
    __vc_assert(v == e, "read-value-little-endian");
    a.check();
    __vc_cover("end");
}
template <size_t M> void search_()
{
    using T = unsigned char;
    Any<T> a;
    std::array<unsigned char, M> v;
    for (size_t m = 0; m < M; m++) { v[m] = __vc_u8("pattern"); }
    uint64_t start = __vc_u64("start"), count = __vc_u64("count"), k = __vc_u64("k");
    __vc_assume(k <= a.cap); // no position beyond the contents can match
    uint64_t size0 = a.fb->size();
    const FixedBuffer<T>& c = *a.fb;
    // the window is [start, end); ghost: position k of the window matches (completely, or as a prefix cut off by the end of the window)
    uint64_t avail = start < size0 ? size0 - start : 0;
    uint64_t end = start + (count < avail ? count : avail);
    const T* data = c.data();
    bool match = (k >= start) & (k < end);
    for (size_t m = 0; m < M; m++) { match &= (k + m >= end) | (__vc_peek8(data + k + m) == v[m]); }
    __vc_mono_ptr(data + k, !match);
    __vc_mono(k, !match);
    __vc_mono(k - start, !match);
    size_t r;
    if (M == 1 && __vc_bool("single")) { r = c.search_char(v[0], start, count); }
    else { r = c.search_chars(v, start, count); }
    a.check();
    __vc_assert(a.fb->size() == size0, "search-keeps-size");
    if (r == FixedBuffer<T>::npos)
    {
        __vc_cover("not-found");
        __vc_assert(!match, "npos-only-when-no-match");
    }
    else
    {
        __vc_cover("found");
        __vc_assert((r >= start) & (r < end), "result-inside-window");
        bool good = true;
        for (size_t m = 0; m < M; m++) { good &= (r + m >= end) | (__vc_peek8(data + r + m) == v[m]); }
        __vc_assert(good, "result-matches");
        __vc_assert(!match | (k >= r), "result-is-first-match");
    }
}

#define D(NAME, CALL)                                                                                                                                \
    extern "C" void drv_##NAME() { CALL; }
D(ctor_u8, ctor<unsigned char>())
D(ctor_u32, ctor<uint32_t>())
D(write_u8, write_<unsigned char>())
D(write_u32, write_<uint32_t>())
D(writenull_u8, write_null<unsigned char>())
D(erase_u8, erase_<unsigned char>())
D(erase_u32, erase_<uint32_t>())
D(eraseempty_u8, erase_empty<unsigned char>())
D(copy_u8, copy_<unsigned char>())
D(copy_u32, copy_<uint32_t>())
D(copynull_u8, copy_null<unsigned char>())
D(index_u8, index_<unsigned char>())
D(index_u32, index_<uint32_t>())
D(read_u16, (read_<unsigned char, uint16_t>()))
D(read_u32, (read_<unsigned char, uint32_t>()))
D(read_u64, (read_<unsigned char, uint64_t>()))
D(search_1, search_<1>())
D(search_2, search_<2>())
D(search_3, search_<3>())
D(search_4, search_<4>())
