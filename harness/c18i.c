/* Integer square root */
#include "vh.h"
#include <eml_neighbors.h>
void harness(void)
{
#if MODE == 1
    VH_IN(uint64_t, x);
    VASSUME(x < ((uint64_t)1 << BITS));
#elif MODE == 2
    /* BITS leading bits of any value, the others all zero or all one */
    VH_IN(uint64_t, top); VH_IN(bool, ones);
    VASSUME(top < ((uint64_t)1 << BITS));
    const uint64_t x = (top << SHIFT) | (ones ? ((uint64_t)1 << SHIFT) - 1 : 0);
#else
    /* around the square of a root with BITS leading bits of any value */
    VH_IN(uint64_t, top); VH_IN(uint8_t, d);
    VASSUME(top < ((uint64_t)1 << BITS) && top >= 2 && d <= 2);
    const uint64_t k = top << SHIFT;
    const uint64_t x = k * k + d - 1;
#endif
    const uint64_t r = eml_isqrt(x);
    VASSERT(r <= 0xffffffffu && r * r <= x, "root is not too large");
    VASSERT(r == 0xffffffffu || (r + 1) * (r + 1) > x, "root is not too small");
    VH_REACH("root");
}
