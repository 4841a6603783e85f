// Channel tracking status word: layout, construction from compressed ranges, PRN offsets, keys, wavelengths.
#include "vc.h"
#include <array>
#include <cassert>
#include <cmath>
#include <limits>
#include "src/decoders/oem/src/rangecmp/channel_tracking_status.cpp"

using CTS = ChannelTrackingStatus;
static const uint32_t KEPT = ~(1u << 19) & ~(1u << 26); // bits 19 and 26 of the documented word are reserved
static uint32_t field(uint64_t w, uint32_t lo, uint32_t n) { return static_cast<uint32_t>((w >> lo) & ((1ull << n) - 1)); }

extern "C" void drv_cts_roundtrip()
{
    const uint32_t w = __vc_u32("word");
    CTS c(w);
    __vc_assert(c.GetAsWord() == (w & KEPT), "word-survives");
    __vc_cover("end");
}
extern "C" void drv_cts_system()
{
    const uint32_t w = __vc_u32("word");
    CTS c(w);
    // documented satellite system codes, bits 16-18: 0 GPS, 1 GLONASS, 2 SBAS, 3 Galileo, 4 BeiDou, 5 QZSS, 6 NavIC, 7 other
    const int32_t want[8] = {0, 1, 2, 5, 6, 7, 9, -1};
    __vc_assert(static_cast<int32_t>(c.GetSystem()) == want[field(w, 16, 3)], "system");
    __vc_cover("end");
}
extern "C" void drv_cts_prn()
{
    const uint32_t w = __vc_u32("word"), id = __vc_u32("id");
    __vc_assume(id >= 1 && id <= 64);
    CTS c(w);
    const uint32_t sys = field(w, 16, 3), p = c.CalculatePrn(id);
    if (sys == 1) { __vc_assert(p == (id >= 43 ? 0 : id + 37), "glonass"); }
    else if (sys == 2) { __vc_assert(p == (id <= 39 ? id + 119 : id >= 54 && id <= 62 ? id + 129 : 0), "sbas"); }
    else if (sys == 5) { __vc_assert(p == id + 192, "qzss"); }
    else { __vc_assert(p == id, "others-unchanged"); }
    __vc_cover("end");
}
extern "C" void drv_cts_key()
{
    const uint32_t w1 = __vc_u32("word1"), w2 = __vc_u32("word2"), p1 = __vc_u8("prn1"), p2 = __vc_u8("prn2");
    const bool s1 = __vc_bool("source1"), s2 = __vc_bool("source2");
    const uint64_t k1 = CTS(w1).MakeKey(p1, static_cast<MEASUREMENT_SOURCE>(s1)), k2 = CTS(w2).MakeKey(p2, static_cast<MEASUREMENT_SOURCE>(s2));
    const bool same = p1 == p2 && s1 == s2 && field(w1, 16, 3) == field(w2, 16, 3) && field(w1, 21, 5) == field(w2, 21, 5);
    __vc_assert((k1 == k2) == same, "same-key-exactly-for-the-same-signal");
    __vc_cover("end");
}
extern "C" void drv_ref_key()
{
    const uint32_t y1 = __vc_u8("system1"), y2 = __vc_u8("system2"), p1 = __vc_u8("sat1"), p2 = __vc_u8("sat2"), g1 = __vc_u8("signal1"), g2 = __vc_u8("signal2");
    const bool s1 = __vc_bool("source1"), s2 = __vc_bool("source2");
    __vc_assume(y1 < 16 && y2 < 16 && g1 < 16 && g2 < 16 && p1 < 64 && p2 < 64);
    const uint64_t k1 = rangecmp4::MakeKey(static_cast<SYSTEM>(y1), p1, static_cast<rangecmp4::SIGNAL_TYPE>(g1), static_cast<MEASUREMENT_SOURCE>(s1));
    const uint64_t k2 = rangecmp4::MakeKey(static_cast<SYSTEM>(y2), p2, static_cast<rangecmp4::SIGNAL_TYPE>(g2), static_cast<MEASUREMENT_SOURCE>(s2));
    __vc_assert((k1 == k2) == (y1 == y2 && p1 == p2 && g1 == g2 && s1 == s2), "same-key-exactly-for-the-same-signal");
    __vc_assert((k1 & 1) == s1, "source-in-the-lowest-bit");
    __vc_cover("end");
}

// ---- signal tables (documented): {system code of the compressed log, signal code, signal code of the channel tracking status}
struct Sig
{
    int32_t sys;
    uint32_t from, to;
};
constexpr Sig SIG2[] = {{0, 1, 0}, {0, 4, 9}, {0, 5, 17}, {0, 6, 5}, {0, 7, 14}, {0, 15, 16}, {1, 1, 0}, {1, 3, 1}, {1, 4, 5}, {1, 6, 6}, {2, 1, 0}, {2, 2, 6},
                        {5, 1, 2}, {5, 2, 12}, {5, 3, 17}, {5, 4, 20}, {5, 5, 7}, {5, 12, 6}, {7, 1, 0}, {7, 2, 24}, {7, 3, 17}, {7, 4, 14}, {7, 8, 16}, {7, 10, 28},
                        {7, 11, 27}, {6, 1, 0}, {6, 2, 4}, {6, 3, 1}, {6, 4, 5}, {6, 13, 2}, {6, 16, 6}, {6, 19, 7}, {6, 20, 9}, {6, 21, 11}, {9, 1, 0}, {8, 1, 19}};
constexpr Sig SIG4[] = {{0, 1, 0}, {0, 4, 9}, {0, 5, 17}, {0, 6, 5}, {0, 7, 14}, {0, 15, 16}, {1, 1, 0}, {1, 3, 1}, {1, 4, 5}, {1, 6, 6}, {2, 1, 0}, {2, 2, 6},
                        {5, 1, 2}, {5, 2, 12}, {5, 3, 17}, {5, 4, 20}, {5, 5, 7}, {5, 12, 6}, {6, 1, 0}, {6, 2, 4}, {6, 3, 1}, {6, 4, 5}, {6, 5, 2}, {6, 6, 6},
                        {6, 7, 7}, {6, 9, 9}, {6, 11, 11}, {7, 1, 0}, {7, 2, 24}, {7, 3, 17}, {7, 4, 14}, {7, 8, 16}, {7, 10, 28}, {7, 11, 27}, {9, 1, 0}};
static uint32_t ctsSystem(int32_t sys)
{
    switch (sys)
    {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2;
    case 5: return 3;
    case 6: return 4;
    case 7: return 5;
    case 9: return 6;
    default: return 7;
    }
}
extern "C" void drv_cts_from2()
{
    rangecmp2::SatelliteBlock sat;
    rangecmp2::SignalBlock sig;
    sat.ucSvChanNumber = __vc_u8("channel");
    __vc_assume(sat.ucSvChanNumber < 32);
    sat.ucSatelliteIdentifier = __vc_u8("satellite");
    sat.ulCombinedField = __vc_u64("satellite-field");
    sig.uiCombinedField1 = __vc_u32("signal-field-1");
    sig.ullCombinedField2 = __vc_u64("signal-field-2");
    const uint32_t f = sig.uiCombinedField1;
    __vc_assume(field(f, 25, 4) < 8); // correlator codes 0..7 are defined
    const uint32_t w = CTS(sat, sig).GetAsWord();
    __vc_assert((w & 31) == (field(f, 29, 1) ? 4 : 11), "tracking-state");
    __vc_assert(field(w, 5, 5) == sat.ucSvChanNumber, "channel-number");
    __vc_assert(field(w, 10, 1) == field(f, 5, 1), "phase-lock");
    __vc_assert(field(w, 11, 1) == field(f, 6, 1), "parity");
    __vc_assert(field(w, 12, 1) == field(f, 7, 1), "code-lock");
    __vc_assert(field(w, 13, 3) == field(f, 25, 3), "correlator");
    const int32_t sys = static_cast<int32_t>(field(sat.ulCombinedField, 4, 5));
    __vc_assert(field(w, 16, 3) == ctsSystem(sys), "system");
    __vc_assert(field(w, 20, 1) == (field(sat.ulCombinedField, 60, 4) > 1), "grouping");
    uint32_t want = 0;
    for (const Sig& s : SIG2) { want |= s.to * uint32_t((s.sys == sys) & (s.from == field(f, 0, 5))); }
    // every system code without a code of its own in the status word is treated like L-band
    if (ctsSystem(sys) == 7) { want = field(f, 0, 5) == 1 ? 19 : 0; }
    __vc_assert(field(w, 21, 5) == want, "signal");
    __vc_assert(field(w, 27, 1) == field(f, 29, 1), "primary");
    __vc_assert(field(w, 28, 1) == field(f, 30, 1), "half-cycle");
    __vc_assert((w >> 29) == 0 && field(w, 19, 1) == 0 && field(w, 26, 1) == 0, "unknown-fields-clear");
    __vc_cover("end");
}
template <typename B> static void from45()
{
    B b;
    b.bParityKnown = __vc_bool("parity");
    b.bHalfCycleAdded = __vc_bool("half");
    b.bValidPsr = __vc_bool("psr");
    b.bValidPhr = __vc_bool("phr");
    b.bValidDoppler = __vc_bool("doppler");
    const uint32_t sys = __vc_u32("system"), sig = __vc_u32("signal");
    __vc_assume(sys < 16 && sig < 16);
    const uint32_t w = CTS(static_cast<SYSTEM>(sys), static_cast<rangecmp4::SIGNAL_TYPE>(sig), b).GetAsWord();
    const bool primary = sig == 1 || (sys == 6 && sig == 2) || (sys == 7 && sig == 2);
    __vc_assert((w & 31) == (primary ? 4 : 11), "tracking-state");
    __vc_assert(field(w, 5, 5) == 0, "channel-number-unknown");
    __vc_assert(field(w, 10, 1) == b.bValidPhr, "phase-lock");
    __vc_assert(field(w, 11, 1) == b.bParityKnown, "parity");
    __vc_assert(field(w, 12, 1) == b.bValidPsr, "code-lock");
    __vc_assert(field(w, 13, 3) == 0, "correlator-unknown");
    __vc_assert(field(w, 16, 3) == ctsSystem(static_cast<int32_t>(sys)), "system");
    uint32_t want = 0;
    for (const Sig& s : SIG4) { want |= s.to * uint32_t((s.sys == static_cast<int32_t>(sys)) & (s.from == sig)); }
    __vc_assert(field(w, 21, 5) == want, "signal");
    __vc_assert(field(w, 27, 1) == primary, "primary");
    __vc_assert(field(w, 28, 1) == b.bHalfCycleAdded, "half-cycle");
    __vc_assert((w >> 29) == 0 && field(w, 19, 2) == 0 && field(w, 26, 1) == 0, "unknown-fields-clear");
    __vc_cover("end");
}
extern "C" void drv_cts_from4() { from45<rangecmp4::MeasurementSignalBlock>(); }
extern "C" void drv_cts_from5() { from45<rangecmp5::MeasurementSignalBlock>(); }

// carrier frequency of {system code, signal code} of the status word, in Hz; 0: no such signal
struct Freq
{
    uint32_t sys, sig;
    double hz;
};
constexpr double L1 = 1575.42e6, L2 = 1227.60e6, L5 = 1176.45e6, E5B = 1207.14e6, E6 = 1278.75e6, ALT = 1191.795e6, B1 = 1561.098e6, B3 = 1268.52e6;
constexpr Freq FREQ[] = {{0, 0, L1}, {0, 16, L1}, {0, 5, L2}, {0, 9, L2}, {0, 17, L2}, {0, 14, L5}, {1, 6, 1202.025e6}, {2, 0, L1}, {2, 6, L5},
                         {3, 2, L1}, {3, 6, E6}, {3, 7, E6}, {3, 12, L5}, {3, 17, E5B}, {3, 20, ALT},
                         {4, 0, B1}, {4, 4, B1}, {4, 1, E5B}, {4, 5, E5B}, {4, 11, E5B}, {4, 2, B3}, {4, 6, B3}, {4, 7, L1}, {4, 9, L5},
                         {5, 0, L1}, {5, 16, L1}, {5, 24, L1}, {5, 17, L2}, {5, 14, L5}, {5, 27, E6}, {5, 28, E6}, {6, 0, L5}};
constexpr double LIGHT = 299792458.0;
extern "C" void drv_cts_wavelength()
{
    const uint32_t w = __vc_u32("word"), sys = field(w, 16, 3), sig = field(w, 21, 5);
    const int16_t k = static_cast<int16_t>(__vc_u16("glonass-frequency"));
    CTS c(w);
    double got = -1;
    bool threw = false;
    try { got = c.GetSignalWavelength(k); }
    catch (const std::out_of_range&) { threw = true; }
    const bool l1 = sys == 1 && sig == 0, l2 = sys == 1 && (sig == 1 || sig == 5);
    __vc_assert(threw == ((l1 || l2) && (k < 0 || k > 20)), "frequency-number-out-of-range-is-refused");
    if (threw) { return; }
    if (l1 || l2)
    {
        const uint64_t i = __vc_split(static_cast<uint64_t>(k), 21);
        const double n = static_cast<double>(i) - 7.0;
        __vc_assert(got == LIGHT / (l1 ? 1602.0e6 + n * 562.5e3 : 1246.0e6 + n * 437.5e3), "glonass-wavelength");
        __vc_cover("glonass");
        return;
    }
    double want = 0.0;
    for (const Freq& f : FREQ)
    {
        if (f.sys == sys && f.sig == sig) { want = LIGHT / f.hz; }
    }
    __vc_assert(got == want, "wavelength");
    __vc_cover("end");
}
