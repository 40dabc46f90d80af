/* Sparse filterbank. MODE 1: any ranges and coefficients, MODE 2: generated tables (gen.h) */
#include "vh.h"
#include <eml_audio.h>
#if MODE == 2
#include "gen.h"
#endif
void harness(void)
{
#if MODE == 1
    /* NF filters over NI inputs; the matrix is what the ranges and coefficients describe */
    VH_BUFFER(int, starts, NF); VH_BUFFER(int, stops, NF);
    int total = 0;
    for (int i = 0; i < NF; i++) {
        VH_IN(int, a); VH_IN(int, b);
        VASSUME(0 <= a); VASSUME(a <= b); VASSUME(b < NI);
        int ca = 0, cb = 0;
        while (ca < a) { ca++; }
        while (cb < b) { cb++; }
        starts[i] = ca; stops[i] = cb;
        total += cb - ca + 1;
    }
    float M[NF][NI];
    VH_BUFFER(float, lut, total);
    int o = 0;
    for (int i = 0; i < NF; i++) {
        for (int j = 0; j < NI; j++) {
            M[i][j] = 0.0f;
            if (j >= starts[i] && j <= stops[i]) { VH_IN(float, c); M[i][j] = c; lut[o++] = c; }
        }
    }
    VH_ARRAY(float, input, NI);
    VH_ARRAY(float, out, NF);
    float in0[NI]; for (int i = 0; i < NI; i++) { in0[i] = input[i]; }
    VASSERT(eml_sparse_filterbank(input, out, NF, starts, stops, lut) == EmlOk, "accepted");
    for (int i = 0; i < NF; i++) {
        float want = 0.0f;
        for (int j = 0; j < NI; j++) { want += M[i][j] * in0[j]; }
        VASSERT(out[i] == want, "dense matrix product");
    }
    for (int i = 0; i < NI; i++) { VASSERT(input[i] == in0[i], "input unchanged"); }
    VH_REACH("reduced");
#else
    VH_ARRAY(float, input, NI);
    VH_ARRAY(float, out, NF);
    VASSERT(GEN(bands) == NF, "number of bands");
    VASSERT(sizeof(GEN(lut)) / sizeof(GEN(lut)[0]) == (size_t)GEN(length), "number of coefficients");
    VASSERT(eml_sparse_filterbank(input, out, NF, GEN(starts), GEN(ends), GEN(lut)) == EmlOk, "accepted");
    for (int i = 0; i < NF; i++) {
        float want = 0.0f;
        for (int j = 0; j < NI; j++) { want += (float)REF[i][j] * input[j]; }
        VASSERT(out[i] == want, "dense matrix product");
    }
    VH_REACH("reduced");
#endif
}
