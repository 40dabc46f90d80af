/* Q16 numbers. MODE 1: conversions (CBMC), MODE 2: division, MODE 3: multiplication (exact integers) */
#include "vh.h"
#include <eml_common.h>
#include <eml_fixedpoint.h>
void harness(void)
{
#if MODE == 1
    VH_IN(int32_t, i);
    VASSUME(i >= -32768 && i <= 32767);
    const eml_q16_t q = EML_Q16_FROMINT(i);
    VASSERT(q == i * 65536, "from integer is exact");
    VASSERT(EML_Q16_TOINT(q) == i, "integer and back");
    VASSERT(EML_Q16_TOFLOAT(q) == (float)i, "integer to float");
    VH_IN(int32_t, raw);
    const int64_t part = (int64_t)EML_Q16_TOINT(raw) * 65536 - raw;
    VASSERT(part > -65536 && part < 65536, "to integer drops less than one");
    VASSERT(raw < 0 || part <= 0, "to integer of a positive number drops the fraction");
    const double exact = (double)raw / 65536.0;
    const float f = EML_Q16_TOFLOAT(raw);
    VASSERT(f == (float)exact, "to float is the nearest float");
    if (raw > -16777216 && raw < 16777216) { VASSERT(EML_Q16_FROMFLOAT(f) == raw, "float and back"); VASSERT((double)f == exact, "to float is exact"); VH_REACH("back"); }
    VH_IN(float, x);
    VASSUME(x > -32768.0f && x < 32768.0f);
    VASSERT(EML_Q16_FROMFLOAT(x) == (int32_t)((double)x * 65536.0), "from float truncates toward zero");
    VASSERT(EML_Q16_ONE == 65536 && EML_Q16_FRACT_BITS == 16, "format");
    VH_REACH("converted");
#elif MODE == 2
    VH_IN(int32_t, a); VH_IN(int32_t, b);
    VASSUME(b != 0);
    const int64_t t = (int64_t)a * 65536;
    const int64_t A = a < 0 ? -t : t, B = b < 0 ? -(int64_t)b : b;
    VASSUME(2 * A < 4294967295LL * B);
    const eml_q16_t q = eml_q16_div(a, b);
    const int64_t Q = q < 0 ? -(int64_t)q : q;
    VASSERT(q == 0 || ((q < 0) == ((a < 0) != (b < 0))), "sign of the quotient");
    VASSERT(2 * Q * B <= 2 * A + B, "quotient rounded to nearest");
    VASSERT(2 * A + B < 2 * Q * B + 2 * B, "quotient rounded to nearest, halves away from zero");
    VH_REACH("quotient");
#elif MODE == 3
    /* operands as whole and part of 256ths, which is every value */
    VH_IN(int32_t, p); VH_IN(int32_t, r); VH_IN(int32_t, q); VH_IN(int32_t, s);
    VASSUME(p >= -8388608 && p < 8388608 && q >= -8388608 && q < 8388608 && r >= 0 && r < 256 && s >= 0 && s < 256);
    const int32_t x = p * 256 + r, y = q * 256 + s;
    const int64_t pq = (int64_t)p * q;
    VASSUME(pq <= 2147483647LL); VASSUME(pq >= -2147483648LL);
    const int64_t got = eml_q16_mul(x, y);
    VASSERT(got == pq, "product of the rounded operands");
    const int64_t ax = x < 0 ? -(int64_t)x : x, ay = y < 0 ? -(int64_t)y : y;
    const int64_t err = 256 * ((int64_t)p * s) + 256 * ((int64_t)q * r) + r * s;     /* x*y - 65536*p*q */
    const int64_t bound = 256 * (ax + ay) + 65536;
    VASSERT(err <= bound, "product error bound");
    VASSERT(-err <= bound, "product error bound");
    VH_REACH("product");
#endif
}
