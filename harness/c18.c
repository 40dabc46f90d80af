/* Distance is the floor of the square root of the exact sum of squares. The root itself is decided by the symbolic executor;
 * under CBMC it is a stub that records its argument and returns some value, which the distance has to pass on. */
#include "vh.h"
#include <eml_neighbors.h>
#if !defined(VH_REPLAY) && !defined(SMALL)
static uint64_t vh_arg; static uint32_t vh_ret; static int vh_calls;
uint32_t vh_isqrt(uint64_t x) { VH_IN(uint32_t, r); vh_arg = x; vh_ret = r; vh_calls++; return r; }
#endif
void harness(void) {
    VH_ARRAY(int16_t, a, N);
    VH_ARRAY(int16_t, b, N);
#ifdef SMALL
    for (int i = 0; i < N; i++) { VASSUME(a[i] >= -7 && a[i] <= 8 && b[i] >= -7 && b[i] <= 8); }
#endif
    uint64_t sum = 0;
    for (int i = 0; i < N; i++) { const int64_t d = (int64_t)a[i] - b[i]; sum += (uint64_t)(d * d); }
    const uint64_t r = eml_distance_euclidean_int16(a, b, N);
#if !defined(VH_REPLAY) && !defined(SMALL)
    VASSERT(vh_calls == 1 && vh_ret == r, "distance is the root of something");
    VASSERT(vh_arg == sum, "distance is the root of the sum of squared differences");
#else
    VASSERT(r * r <= sum, "distance is not too large");
    VASSERT((r + 1) * (r + 1) > sum, "distance is not too small");
#endif
    VH_REACH("distance");
}
