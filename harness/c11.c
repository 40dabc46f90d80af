/* Fixed-point log2 */
#include "vh.h"
#include <eml_bayes.h>
#if MODE == 1 || MODE == 5
/* accuracy: TAB[k] is 2^(32 + k / 2^P), rounded up (UP) and down (DOWN) */
#include "c11_table.h"
#endif
void harness(void)
{
    VH_IN(uint32_t, x);
#if MODE == 1
    VASSUME(x != 0);
    const int32_t y = eml_bayes_log2fix(x, P);
    uint64_t m = (uint64_t)x << 32; int e = 31;     /* m = x * 2^(32 - e), in [2^32, 2^33) */
    if (m >> 48) { m >>= 16; } else { e -= 16; }
    if (m >> 40) { m >>= 8; } else { e -= 8; }
    if (m >> 36) { m >>= 4; } else { e -= 4; }
    if (m >> 34) { m >>= 2; } else { e -= 2; }
    if (m >> 33) { m >>= 1; } else { e -= 1; }
    VASSERT(((uint64_t)x << 32) == m << e, "reference mantissa");
    const int32_t off = y - (e - P) * (1 << P);     /* fraction, in units of the last place */
    VASSERT(off >= -4 && off < (1 << P), "integer part");
    if (off >= 0) { VASSERT(m >= UP[off], "not above the true logarithm"); }
    VASSERT(off + 4 >= 0 && m <= DOWN[off + 4], "at most 4 units below the true logarithm");
    if (m == (uint64_t)1 << 32) { VASSERT(off == 0, "exact at powers of two"); VH_REACH("power"); }
    else { VH_REACH("between"); }
#elif MODE == 2
    const int32_t y = eml_bayes_log2fix(x, P);
    if (x == 0) { VASSERT(y == INT32_MIN, "logarithm of zero"); VH_REACH("zero"); }
    else {
        VASSERT(y >= -P * (1 << P) && y <= (int64_t)(32 - P) * (1 << P), "range");
        VH_REACH("range");
    }
#elif MODE == 3
    VH_IN(uint64_t, precision);
    VASSUME(precision < 1 || precision > 26);
    VASSERT(eml_bayes_log2fix(x, precision) == INT32_MAX, "unsupported precision");
    VH_REACH("precision");
#elif MODE == 5
    /* numbers 2^k + 2^(k-m) and 2^k + 2^(k-1) + ... + 2^(k-m); TAB: 2^P log2(x / 2^k), rounded down */
    VH_IN(uint8_t, k); VH_IN(uint8_t, m); VH_IN(bool, ones);
    VASSUME(k < 32 && m >= 1 && m <= k && x == (uint32_t)(ones ? ((uint64_t)2 << k) - ((uint64_t)1 << (k - m)) : ((uint64_t)1 << k) + ((uint64_t)1 << (k - m))));
    const int32_t y = eml_bayes_log2fix(x, P);
    const int32_t off = y - ((int32_t)k - P) * (1 << P);
    const int32_t want = ones ? TAB_ONES[m] : TAB_TWO[m];
    VASSERT(off <= want, "not above the true logarithm");
    VASSERT(off >= want - 3, "at most 4 units below the true logarithm");
    VH_REACH("two bits");
#else
    VH_IN(uint8_t, k); VASSUME(k < 32);
    VASSERT(eml_bayes_log2fix((uint32_t)1 << k, P) == ((int32_t)k - P) * (1 << P), "exact at powers of two");
    VH_REACH("power");
#endif
}
