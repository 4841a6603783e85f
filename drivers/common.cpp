#include "vc.h"
#include "src/common/src/common.cpp"
using namespace novatel::edie;

// IsEqual is |a-b| < eps in IEEE double arithmetic
extern "C" void drv_isequal()
{
    double a = __vc_f64("a"), b = __vc_f64("b"), e = __vc_f64("eps");
    bool r = IsEqual(a, b, e);
    double d = a - b;
    __vc_assert(r == (d > -e && d < e), "equal-iff-difference-below-tolerance");
    __vc_cover("end");
}
extern "C" void drv_isequal_default()
{
    double a = __vc_f64("a"), b = __vc_f64("b");
    double d = a - b;
    __vc_assert(IsEqual(a, b) == (d > -0.001 && d < 0.001), "default-tolerance-one-thousandth");
    __vc_cover("end");
}
extern "C" void drv_todigit()
{
    char c = static_cast<char>(__vc_u8("c"));
    __vc_assume(c >= '0' && c <= '9');
    __vc_assert(ToDigit(c) == static_cast<int32_t>(c) - 48, "digit-value");
    __vc_cover("end");
}
