/* Lehmer generator */
#include "vh.h"
#include <eml_benchmark.h>
#ifndef MODE
#define MODE 1
#endif
void harness(void)
{
#if MODE == 1
    VH_IN(uint32_t, state);
    VASSUME(state >= 1 && state <= 2147483646u);
    const uint64_t want = ((uint64_t)state * 48271u) % 2147483647u;
    uint32_t s = state;
    const uint32_t got = eml_lcg_parkmiller(&s);
    VASSERT(got == want, "next state");
    VASSERT(s == got, "state updated");
    /* never 0, as 2^31-1 is prime and divides neither the state nor 48271 */
    VASSERT(got <= 2147483646u, "range");
    VH_REACH("next");
#elif MODE == 3
    static float values[N + 1];
    VH_IN(uint32_t, before);
    VASSUME(before <= 65535);
    values[N] = (float)before;
    VASSERT(eml_benchmark_fill(values, N) == EmlOk, "filled");
    uint64_t s = 1;
    for (int i = 0; i < N; i++) {
        s = s * 48271u % 2147483647u;
        VASSERT(values[i] == (float)s, "sequence in all the elements");
    }
    VASSERT(values[N] == (float)before, "nothing after the elements");
    VH_REACH("filled");
#else
    VH_IN(uint8_t, n); VASSUME(n <= 6);
    float values[7];
    for (int i = 0; i < 7; i++) { values[i] = -1.0f; }
    VASSERT(eml_benchmark_fill(values, n) == EmlOk, "filled");
    uint64_t s = 1;
    for (int i = 0; i < 7; i++) {
        s = s * 48271u % 2147483647u;
        VASSERT(values[i] == (i < n ? (float)s : -1.0f), "sequence in exactly the requested elements");
    }
    VH_REACH("filled");
#endif
}
