// Data symbols of members of RangeDecompressor that the drivers never touch (their constructors and destructors are never run).
extern "C"
{
void* vt1[32] __asm__("_ZTVN7novatel4edie3oem14MessageDecoderE") = {};
void* vt2[32] __asm__("_ZTVN7novatel4edie18MessageDecoderBaseE") = {};
}
