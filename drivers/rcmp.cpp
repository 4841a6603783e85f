// Range decompression: lock-time tracking, measurement blocks, conversion to range data.
#include "vc.h"
#include <array>
#include <cassert>
#include <cmath>
#include <limits>
#include <new>
#include <any>
#include <memory>
#include <sstream>
#include <unordered_map>
#include <variant>
#include <nlohmann/json.hpp>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/null_sink.h>
#include <simdjson.h>
#define private public
#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"
#undef private
#include "src/decoders/oem/src/rangecmp/channel_tracking_status.cpp"
#include "src/decoders/oem/src/rangecmp/range_decompressor.cpp"

extern "C"
{
__attribute__((used)) extern const uint64_t vc_cts_layout[4] = {offsetof(ChannelTrackingStatus, eSatelliteSystem), sizeof(ChannelTrackingStatus::eSatelliteSystem),
                                                               offsetof(ChannelTrackingStatus, eSignalType), sizeof(ChannelTrackingStatus::eSignalType)};
}

// A decompressor of which only the members used by the function under contract are alive.
struct Dec
{
    RangeDecompressor* d;
    Dec()
    {
        d = static_cast<RangeDecompressor*>(__vc_obj(sizeof(RangeDecompressor), "decompressor"));
        new (&d->mMyRangeCmp2LockTimes) decltype(d->mMyRangeCmp2LockTimes)();
        new (&d->mMyRangeCmp4LockTimes) decltype(d->mMyRangeCmp4LockTimes)();
        new (&d->pclMyLogger) std::shared_ptr<spdlog::logger>();
#ifdef VC_NATIVE
        static auto sink = std::make_shared<spdlog::sinks::null_sink_mt>();
        static auto log = std::make_shared<spdlog::logger>("x", sink);
        d->pclMyLogger = log;
#endif
    }
};
static double number(const char* n)
{
    const double t = __vc_f64(n);
    __vc_assume(t >= 0.0 && t < 1e15);
    return t;
}

// ---------------------------------------------------------------- RANGECMP2 lock time
extern "C" void drv_lock2()
{
    Dec x;
    MetaDataStruct& m = *static_cast<MetaDataStruct*>(__vc_obj(sizeof(MetaDataStruct), "meta"));
    m.dMilliseconds = number("time");
    const uint64_t key = __vc_u64("key"), other = __vc_u64("other-key");
    __vc_assume(key != other);
    const bool known = __vc_bool("known"), sat = __vc_bool("saturated");
    const double since = number("since");
    auto& o = x.d->mMyRangeCmp2LockTimes[other];
    const double osince = o.dLockTimeSaturatedMilliseconds = number("other-since");
    const bool osat = o.bLockTimeSaturated = __vc_bool("other-saturated");
    if (known)
    {
        auto& e = x.d->mMyRangeCmp2LockTimes[key];
        e.dLockTimeSaturatedMilliseconds = since;
        e.bLockTimeSaturated = sat;
    }
    const uint32_t bits = __vc_u32("bits");
    __vc_assume(bits <= 0x1FFFF);
    const double r = x.d->GetRangeCmp2LockTime(m, bits, key);
    auto& e = x.d->mMyRangeCmp2LockTimes[key];
    const bool was = known && sat;
    if (bits == 0x1FFFF && was)
    {
        __vc_same_f64(r, (131071.0 + (m.dMilliseconds - since)) / 1000.0, "grows-with-time-once-saturated");
        __vc_same_f64(e.dLockTimeSaturatedMilliseconds, since, "start-kept");
        __vc_cover("saturated");
    }
    else { __vc_same_f64(r, static_cast<double>(bits) / 1000.0, "reported-value"); }
    __vc_assert(e.bLockTimeSaturated == (bits == 0x1FFFF), "saturation-state-follows-the-message");
    if (bits == 0x1FFFF && !was) { __vc_same_f64(e.dLockTimeSaturatedMilliseconds, m.dMilliseconds, "saturation-starts-now"); }
    auto& o2 = x.d->mMyRangeCmp2LockTimes[other];
    __vc_assert(o2.bLockTimeSaturated == osat, "other-signal-unchanged");
    __vc_same_f64(o2.dLockTimeSaturatedMilliseconds, osince, "other-signal-unchanged");
    __vc_cover("end");
}

// ---------------------------------------------------------------- RANGECMP4/5 lock time
// lower bound in ms of each reported range (documented)
static const double BOUND[16] = {0, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144};
static double bound(uint32_t b) { return BOUND[b]; }
extern "C" void drv_lock4()
{
    Dec x;
    MetaDataStruct& m = *static_cast<MetaDataStruct*>(__vc_obj(sizeof(MetaDataStruct), "meta"));
    const double t = m.dMilliseconds = number("time");
    const uint64_t key = __vc_u64("key"), other = __vc_u64("other-key");
    __vc_assume(key != other);
    auto& o = x.d->mMyRangeCmp4LockTimes[other];
    const double olast = o.dLastBitfieldChangeMilliseconds = number("other-last");
    const uint8_t obits = o.ucBits = __vc_u8("other-bits");
    const bool oabs = o.bAbsolute = __vc_bool("other-absolute");
    const bool known = __vc_bool("known"), abs0 = __vc_bool("absolute");
    const uint8_t b0 = __vc_u8("old-bits"), b = __vc_u8("bits");
    __vc_assume(b0 < 16 && b < 16);
    const double last0 = number("last"), shown0 = number("shown");
    if (known)
    {
        auto& e = x.d->mMyRangeCmp4LockTimes[key];
        e.dMilliseconds = shown0;
        e.dLastBitfieldChangeMilliseconds = last0;
        e.ucBits = b0;
        e.bAbsolute = abs0;
    }
    const double r = x.d->GetRangeCmp4LockTime(m, b, key);
    auto& e = x.d->mMyRangeCmp4LockTimes[key];
    double last = last0;
    uint32_t bits = b0;
    bool absolute = abs0;
    if (!known)
    {
        // first observation: relative, unless lock was just acquired
        last = t;
        bits = b;
        absolute = b == 0;
        __vc_cover("first");
    }
    else if (!abs0 && b != b0)
    {
        // a change of the reported range while relative; growing (or lock just acquired) makes the time exact from here on
        last = t;
        bits = b;
        absolute = b == 0 || b > b0;
        __vc_cover("change");
    }
    else if (b < b0)
    {
        // outage: relative again
        last = t;
        bits = b;
        absolute = false;
        __vc_cover("outage");
    }
    else if (abs0 && b < 15 && t - last0 > bound(b + 1u))
    {
        // the range should have changed earlier
        last = t;
        __vc_cover("late");
    }
    __vc_assert(e.ucBits == bits, "range-remembered");
    __vc_assert(e.bAbsolute == absolute, "exactness-remembered");
    __vc_same_f64(e.dLastBitfieldChangeMilliseconds, last, "time-of-last-change");
    __vc_same_f64(r, (t - last + bound(bits)) / 1000.0, "lock-time");
    __vc_same_f64(e.dMilliseconds, t - last + bound(bits), "lock-time-remembered");
    auto& o2 = x.d->mMyRangeCmp4LockTimes[other];
    __vc_assert(o2.ucBits == obits && o2.bAbsolute == oabs, "other-signal-unchanged");
    __vc_same_f64(o2.dLastBitfieldChangeMilliseconds, olast, "other-signal-unchanged");
    __vc_cover("end");
}

// ---------------------------------------------------------------- measurement blocks
struct Bits
{
    const unsigned char* base;
    uint64_t pos;
    uint64_t take(uint32_t n) // the next n bits (n < 57) of the little-endian bit stream
    {
        uint64_t v = 0;
        for (uint32_t k = 0; k * 8 < n + (pos & 7); k++) { v |= static_cast<uint64_t>(base[(pos >> 3) + k]) << (8 * k); }
        v = (v >> (pos & 7)) & ((1ull << n) - 1);
        pos += n;
        return v;
    }
    int64_t takeSigned(uint32_t n)
    {
        const uint64_t v = take(n), s = 1ull << (n - 1);
        return static_cast<int64_t>(v & (s - 1)) - static_cast<int64_t>(v & s);
    }
};
struct In
{
    unsigned char *base, *ptr;
    uint32_t left, off, left0;
    Bits spec;
    explicit In(uint32_t)
    {
        left0 = left = __vc_u32("bytes-left");
        __vc_assume(left < (1u << 28));
        const uint32_t o = __vc_u32("bit-offset");
        __vc_assume(o < 8 && (left > 0 || o == 0));
        off = static_cast<uint32_t>(__vc_split(o, 8));
        base = ptr = static_cast<unsigned char*>(__vc_obj(left, "data"));
        spec = {base, off};
    }
    // returns true when the block was complete
    bool done(bool threw, uint32_t bits)
    {
        const uint64_t first = spec.pos;
        __vc_assert(threw == (bits > static_cast<uint64_t>(left0) * 8 - first), "refused-exactly-when-incomplete");
        if (threw) { __vc_cover("incomplete"); return false; }
        __vc_assert(static_cast<uint64_t>(ptr - base) * 8 + off == first + bits, "consumes-exactly-the-block");
        __vc_assert(static_cast<uint64_t>(ptr - base) + left == left0, "bytes-left");
        __vc_cover("complete");
        return true;
    }
};
template <typename B> static void common(Bits& s, const B& b, uint32_t stdBits)
{
    __vc_assert(b.bParityKnown == (s.take(1) != 0), "parity");
    __vc_assert(b.bHalfCycleAdded == (s.take(1) != 0), "half-cycle");
    __vc_same_f32(b.fCNo, static_cast<float>(s.take(11)) * 0.05F, "carrier-to-noise");
    __vc_assert(b.ucLockTime == s.take(4), "lock-time");
    __vc_assert(b.ucPsrStdDev == s.take(stdBits), "pseudorange-deviation");
    __vc_assert(b.ucPhrStdDev == s.take(stdBits), "phase-deviation");
}
template <bool Secondary> static void ref4()
{
    Dec x;
    In in(0);
    rangecmp4::MeasurementSignalBlock b;
    const double psr = __vc_f64("primary-psr"), dop = __vc_f64("primary-doppler");
    bool threw = false;
    try { x.d->DecompressReferenceBlock<Secondary>(&in.ptr, in.left, in.off, b, psr, dop); }
    catch (const std::runtime_error&) { threw = true; }
    if (!in.done(threw, 25 + (Secondary ? 20 : 37) + 23 + (Secondary ? 14 : 26))) { return; }
    common(in.spec, b, 4);
    const int64_t p = Secondary ? in.spec.takeSigned(20) : static_cast<int64_t>(in.spec.take(37));
    const int64_t f = in.spec.takeSigned(23), d = in.spec.takeSigned(Secondary ? 14 : 26);
    __vc_assert(b.bValidPsr == (p != (Secondary ? -524288 : 137438953471)), "pseudorange-validity");
    __vc_assert(b.bValidPhr == (f != -4194304), "phase-validity");
    // the documented invalid marker of a secondary block does not fit its field; only the primary one can be marked
    __vc_assert(b.bValidDoppler == (d != -33554432), "doppler-validity");
    __vc_same_f64(b.dPsr, static_cast<double>(p) * 0.0005 + (Secondary ? psr : 0), "pseudorange");
    __vc_same_f64(b.dPhr, static_cast<double>(static_cast<int32_t>(f)) * 0.0001 + b.dPsr, "phase");
    __vc_same_f64(b.dDoppler, static_cast<double>(static_cast<int32_t>(d)) * 0.0001 + (Secondary ? dop : 0), "doppler");
}
extern "C" void drv_block4_primary() { ref4<false>(); }
extern "C" void drv_block4_secondary() { ref4<true>(); }

template <bool Secondary> static void diff4()
{
    Dec x;
    In in(0);
    rangecmp4::MeasurementSignalBlock b, ref;
    ref.dPsr = __vc_f64("ref-psr");
    ref.dPhr = __vc_f64("ref-phr");
    ref.dDoppler = __vc_f64("ref-doppler");
    const double dt = __vc_f64("offset");
    bool threw = false;
    try { x.d->DecompressDifferentialBlock<Secondary>(&in.ptr, in.left, in.off, b, ref, dt); }
    catch (const std::runtime_error&) { threw = true; }
    if (!in.done(threw, 25 + 19 + 16 + (Secondary ? 14 : 18))) { return; }
    common(in.spec, b, 4);
    const int32_t p = static_cast<int32_t>(in.spec.takeSigned(19)), f = static_cast<int32_t>(in.spec.takeSigned(16)),
                  d = static_cast<int32_t>(in.spec.takeSigned(Secondary ? 14 : 18));
    __vc_assert(b.bValidPsr == (p != -262144), "pseudorange-validity");
    __vc_assert(b.bValidPhr == (f != -32768), "phase-validity");
    __vc_assert(b.bValidDoppler == (d != (Secondary ? -8192 : -131072)), "doppler-validity");
    __vc_same_f64(b.dPsr, p * 0.0005 + ref.dPsr + ref.dDoppler * dt, "pseudorange");
    __vc_same_f64(b.dPhr, f * 0.0001 + ref.dPhr + ref.dDoppler * dt, "phase");
    __vc_same_f64(b.dDoppler, d * 0.0001 + ref.dDoppler, "doppler");
}
extern "C" void drv_diff4_primary() { diff4<false>(); }
extern "C" void drv_diff4_secondary() { diff4<true>(); }

template <bool Secondary> static void block5()
{
    Dec x;
    In in(0);
    rangecmp5::MeasurementSignalBlock b;
    const double psr = __vc_f64("primary-psr"), dop = __vc_f64("primary-doppler");
    bool threw = false;
    try { x.d->DecompressBlock<Secondary>(&in.ptr, in.left, in.off, b, psr, dop); }
    catch (const std::runtime_error&) { threw = true; }
    if (!in.done(threw, 27 + (Secondary ? 20 : 37) + 23 + (Secondary ? 16 : 28))) { return; }
    common(in.spec, b, 5);
    const int64_t p = Secondary ? in.spec.takeSigned(20) : static_cast<int64_t>(in.spec.take(37));
    const int32_t f = static_cast<int32_t>(in.spec.takeSigned(23)), d = static_cast<int32_t>(in.spec.takeSigned(Secondary ? 16 : 28));
    __vc_assert(b.bValidPsr == (p != (Secondary ? -524288 : 137438953471)), "pseudorange-validity");
    __vc_assert(b.bValidPhr == (f != -4194304), "phase-validity");
    __vc_same_f64(b.dPsr, static_cast<double>(p) * 0.0005 + (Secondary ? psr : 0), "pseudorange");
    __vc_same_f64(b.dPhr, f * 0.0001 + b.dPsr, "phase");
    __vc_same_f64(b.dDoppler, d * 0.0001 + (Secondary ? dop : 0), "doppler");
}
extern "C" void drv_block5_primary() { block5<false>(); }
extern "C" void drv_block5_secondary() { block5<true>(); }

// ---------------------------------------------------------------- range data records
static const double DEV_PSR4[16] = {0.020, 0.030, 0.045, 0.066, 0.099, 0.148, 0.220, 0.329, 0.491, 0.732, 1.092, 1.629, 2.430, 3.625, 5.409, 5.409};
static const double DEV_ADR4[16] = {0.003, 0.005, 0.007, 0.009, 0.012, 0.016, 0.022, 0.029, 0.039, 0.052, 0.070, 0.093, 0.124, 0.166, 0.222, 0.222};
static const double DEV_PSR5[32] = {0.020, 0.030, 0.045, 0.066, 0.099, 0.148, 0.220, 0.329, 0.491, 0.732, 1.092, 1.629, 2.430, 3.625, 5.409, 6.876, 8.741,
                                    11.111, 14.125, 17.957, 22.828, 29.020, 36.891, 46.898, 59.619, 75.791, 96.349, 122.484, 155.707, 197.943, 251.634, 251.634};
static const double DEV_PHR5[32] = {0.00391, 0.00458, 0.00536, 0.00628, 0.00735, 0.00861, 0.01001, 0.01182, 0.01385, 0.01621, 0.01900, 0.02223, 0.02607, 0.03054, 0.03577, 0.04190,
                                    0.04908, 0.05749, 0.06734, 0.07889, 0.09240, 0.10824, 0.12679, 0.14851, 0.17396, 0.20378, 0.23870, 0.27961, 0.32753, 0.38366, 0.44940, 0.44940};
template <typename B> static void populate(const double* devPsr, const double* devPhr, uint32_t nDev, bool five)
{
    Dec x, y;
    MetaDataStruct& m = *static_cast<MetaDataStruct*>(__vc_obj(sizeof(MetaDataStruct), "meta"));
    m.dMilliseconds = number("time");
    m.ucSiblingId = __vc_bool("source");
    B b;
    b.bValidPsr = __vc_bool("valid-psr");
    b.bValidPhr = __vc_bool("valid-phr");
    b.bValidDoppler = __vc_bool("valid-doppler");
    b.dPsr = __vc_f64("psr");
    b.dPhr = __vc_f64("phr");
    b.dDoppler = __vc_f64("doppler");
    b.fCNo = __vc_f32("cno");
    b.ucLockTime = __vc_u8("lock-bits");
    b.ucPsrStdDev = __vc_u8("psr-dev");
    b.ucPhrStdDev = __vc_u8("phr-dev");
    __vc_assume(b.ucLockTime < 16 && b.ucPsrStdDev < nDev && b.ucPhrStdDev < nDev);
    const ChannelTrackingStatus cts(__vc_u32("status"));
    const uint32_t id = __vc_u32("satellite");
    __vc_assume(id >= 1 && id <= 64);
    const int8_t freq = static_cast<int8_t>(__vc_u8("glonass-frequency"));
    __vc_assume(freq >= 0 && freq <= 20);
    const double wl = cts.GetSignalWavelength(freq);
    const uint32_t prn = cts.CalculatePrn(id);
    RangeData r;
    bool threw = false;
    try { x.d->PopulateNextRangeData(r, b, m, cts, id, freq); }
    catch (const std::runtime_error&) { threw = true; }
    if (!five) { __vc_assert(threw == (prn == 0 && cts.GetSystem() != SYSTEM::GLONASS), "unknown-satellite-refused"); }
    else { __vc_assert(!threw, "no-refusal"); }
    if (threw) { return; }
    __vc_assert(r.usPrn == prn, "satellite");
    __vc_assert(r.sGlonassFrequency == freq, "glonass-frequency");
    const double nan = std::numeric_limits<double>::quiet_NaN();
    __vc_same_f64(r.dPsr, b.bValidPsr ? b.dPsr : nan, "pseudorange");
    __vc_same_f64(r.dAdr, b.bValidPhr ? -b.dPhr / wl : nan, "carrier-phase");
    __vc_same_f32(r.fDopplerFrequency, b.bValidDoppler ? static_cast<float>(-b.dDoppler / wl) : std::numeric_limits<float>::quiet_NaN(), "doppler");
    __vc_same_f32(r.fPsrStdDev, static_cast<float>(devPsr[b.ucPsrStdDev]), "pseudorange-deviation");
    __vc_same_f32(r.fAdrStdDev, static_cast<float>(devPhr[b.ucPhrStdDev]), "phase-deviation");
    __vc_same_f32(r.fCNo, b.fCNo, "carrier-to-noise");
    const uint64_t key = cts.MakeKey(id, static_cast<MEASUREMENT_SOURCE>(m.ucSiblingId));
    __vc_same_f32(r.fLockTime, static_cast<float>(y.d->GetRangeCmp4LockTime(m, b.ucLockTime, key)), "lock-time");
    __vc_assert(x.d->mMyRangeCmp4LockTimes.find(key) != x.d->mMyRangeCmp4LockTimes.end(), "lock-time-of-this-signal");
    __vc_assert(r.uiChannelTrackingStatus == cts.GetAsWord(), "status");
    __vc_cover("end");
}
extern "C" void drv_populate4() { populate<rangecmp4::MeasurementSignalBlock>(DEV_PSR4, DEV_ADR4, 16, false); }
extern "C" void drv_populate5() { populate<rangecmp5::MeasurementSignalBlock>(DEV_PSR5, DEV_PHR5, 32, true); }

// ---------------------------------------------------------------- RANGECMP
static const double DEV_PSR1[16] = {0.050, 0.075, 0.113, 0.169, 0.253, 0.380, 0.570, 0.854, 1.281, 2.375, 4.750, 9.500, 19.000, 38.000, 76.000, 152.000};
template <typename T> static T& fresh(const char* n) { return *static_cast<T*>(__vc_obj(sizeof(T), n)); }
static uint64_t load(const void* p, uint32_t at, uint32_t n)
{
    uint64_t v = 0;
    for (uint32_t k = 0; k < n; k++) { v |= static_cast<uint64_t>(static_cast<const unsigned char*>(p)[at + k]) << (8 * k); }
    return v;
}
static int32_t sext(uint64_t v, uint32_t n)
{
    const uint64_t s = 1ull << (n - 1);
    return static_cast<int32_t>(static_cast<int64_t>(v & (s - 1)) - static_cast<int64_t>(v & s));
}
static uint64_t cut(uint64_t v, uint32_t lo, uint32_t n) { return (v >> lo) & ((1ull << n) - 1); }

template <uint32_t Record> static void rangecmpRecord()
{
    auto& in = fresh<rangecmp::RangeCmp>("message");
    auto& out = fresh<Range>("range");
    const uint32_t n = static_cast<uint32_t>(Record + 1), at = 4 + 24 * Record;
    for (uint32_t k = 0; k < Record; k++) { in.astRangeData[k] = {}; } // what precedes: GPS L1 C/A, all zero
    in.uiNumberOfObservations = n;
    const double l1 = ChannelTrackingStatus(0).GetSignalWavelength(7);
    __vc_assume(l1 >= 0.125 && l1 <= 1.0);
    const unsigned char* p = reinterpret_cast<const unsigned char*>(&in);
    const uint64_t status = load(p, at, 4), dp = load(p, at + 4, 8), adr = load(p, at + 12, 4), dev = load(p, at + 16, 1), misc = load(p, at + 18, 4);
    const uint32_t freq = static_cast<uint32_t>(cut(misc, 26, 6));
    const ChannelTrackingStatus cts(static_cast<uint32_t>(status));
    __vc_assume(freq <= 13);
    const double wl = cts.GetSignalWavelength(static_cast<int16_t>(freq + 7));
    __vc_assume(wl >= 0.125 && wl <= 1.0); // a documented signal (see drv_cts_wavelength)
    RangeDecompressor::RangeCmpToRange(in, out);
    __vc_assert(out.uiNumberOfObservations == n, "count");
    const RangeData& d = out.astRangeData[Record];
    __vc_assert(d.uiChannelTrackingStatus == status, "status");
    __vc_assert(d.usPrn == load(p, at + 17, 1), "satellite");
    __vc_assert(d.sGlonassFrequency == static_cast<int16_t>(freq), "glonass-frequency");
    __vc_same_f32(d.fDopplerFrequency, static_cast<float>(sext(cut(dp, 0, 28), 28)) / 256.0F, "doppler");
    const double psr = static_cast<double>(cut(dp, 28, 36)) / 128.0;
    __vc_same_f64(d.dPsr, psr, "pseudorange");
    __vc_same_f32(d.fPsrStdDev, static_cast<float>(DEV_PSR1[cut(dev, 0, 4)]), "pseudorange-deviation");
    __vc_same_f32(d.fAdrStdDev, static_cast<float>(static_cast<double>(static_cast<uint32_t>(cut(dev, 4, 4)) + 1) / 512.0), "phase-deviation");
    __vc_same_f32(d.fLockTime, static_cast<float>(static_cast<double>(static_cast<uint32_t>(cut(misc, 0, 21))) / 32.0), "lock-time");
    __vc_same_f32(d.fCNo, static_cast<float>(static_cast<uint32_t>(cut(misc, 21, 5)) + 20), "carrier-to-noise");
    const double a0 = static_cast<double>(static_cast<uint32_t>(adr)) / 256.0;
    const double rolls = (psr / wl + a0) / 8388608.0;
    __vc_same_f64(d.dAdr, a0 - static_cast<double>(8388608u * static_cast<uint64_t>(std::round(rolls))), "carrier-phase");
    __vc_cover("end");
}
extern "C" void drv_rangecmp_first() { rangecmpRecord<0>(); }
extern "C" void drv_rangecmp_second() { rangecmpRecord<1>(); }

// more observations than a range log holds
extern "C" void drv_rangecmp_toomany()
{
    auto& in = fresh<rangecmp::RangeCmp>("message");
    auto& out = fresh<Range>("range");
    __vc_assume(in.uiNumberOfObservations > 325);
    bool threw = false;
    try { RangeDecompressor::RangeCmpToRange(in, out); }
    catch (const std::exception&) { threw = true; }
    __vc_assert(threw, "too-many-observations-refused");
    __vc_cover("end");
}
extern "C" void drv_rangecmp_bounds()
{
    auto& in = fresh<rangecmp::RangeCmp>("message");
    auto& out = fresh<Range>("range");
    const uint32_t n = in.uiNumberOfObservations;
    bool threw = false;
    try { RangeDecompressor::RangeCmpToRange(in, out); }
    catch (const std::exception&) { threw = true; }
    if (n > 325) { __vc_assert(threw, "too-many-observations-refused"); }
    else if (!threw) { __vc_assert(out.uiNumberOfObservations == n, "count"); }
    __vc_cover("end");
}
