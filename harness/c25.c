/* Vector, window and spectrum helpers. MODE 1 (CBMC): vector placement; other modes with reals */
#include "vh.h"
#include <eml_audio.h>
#include <eml_mixture.h>
#ifndef N
#define N 3
#endif
#ifdef ANY
/* long vectors: given values, but for the one at position ANY */
#define INPUT(name, n) VH_BUFFER(float, name, n); for (int vh_i = 0; vh_i < (n); vh_i++) { name[vh_i] = (float)((vh_i * 37) % 101 - 50) / 4.0f; } \
    if (ANY < (n)) { VH_IN(float, name##_any); VASSUME(name##_any >= -100.0f && name##_any <= 100.0f); name[ANY] = name##_any; }
#else
#define INPUT(name, n) VH_ARRAY(float, name, n)
#endif
void harness(void)
{
#if MODE == 1
    INPUT(dst, ND);
    INPUT(src, NS);
#ifdef LOCATION
    VH_IN(int, location); VASSUME(location >= LOCATION - 1 && location <= LOCATION + 1);
#else
    VH_IN(int, location);
#endif
    float d0[ND + 1], s0[NS + 1];
    for (int i = 0; i < ND; i++) { VASSUME(dst[i] == dst[i]); d0[i] = dst[i]; }
    for (int i = 0; i < NS; i++) { VASSUME(src[i] == src[i]); s0[i] = src[i]; }
    EmlVector dest = { dst, ND }, source = { src, NS };
    const int err = eml_vector_set(dest, source, location);
    const bool fits = location >= 0 && (int64_t)location + NS <= ND;
    VASSERT((err == 0) == fits, "fails exactly when it does not fit");
    for (int i = 0; i < ND; i++) {
        if (fits && i >= location && i < location + NS) { VASSERT(dst[i] == s0[i - location], "copied to the position"); }
        else { VASSERT(dst[i] == d0[i], "nothing else changed"); }
    }
    for (int i = 0; i < NS; i++) { VASSERT(src[i] == s0[i], "source unchanged"); }
#if NS <= ND
    if (fits) { VH_REACH("copied"); }
#endif
    if (!fits) { VH_REACH("refused"); }
#elif MODE == 2
    INPUT(d, N + 1); VH_IN(float, val); VH_IN(int, start); VH_IN(int, end);
    float d0[N + 1]; for (int i = 0; i <= N; i++) { d0[i] = d[i]; }
    EmlVector v = { d, N };
    /* mean, dot product, extremes */
    float sum = 0;
    for (int i = 0; i < N; i++) { sum += d0[i]; }
#if N > 0
    VCLOSE(eml_signal_mean(d, N) * N, sum, 0.0, "mean");
#endif
    INPUT(e, N);
    float dot = 0;
    for (int i = 0; i < N; i++) { dot += d0[i] * e[i]; }
    VASSERT(eml_dot_product(d, e, N) == dot, "dot product");
    float lo = 77.0f, hi = 77.0f;
    VASSERT(eml_minmax(d, N, &lo, &hi) == EmlOk, "minmax");
    VASSERT(eml_minmax(d, N, NULL, NULL) == EmlOk, "minmax without outputs");
#if N > 0
    bool haslo = false, hashi = false;
    for (int i = 0; i < N; i++) {
        VASSERT(lo <= d0[i] && hi >= d0[i], "extremes bound all values");
        if (lo == d0[i]) { haslo = true; }
        if (hi == d0[i]) { hashi = true; }
    }
    VASSERT(haslo && hashi, "extremes are values");
#endif
    for (int i = 0; i <= N; i++) { VASSERT(d[i] == d0[i], "data only read"); }
    VASSERT(eml_vector_set_value(v, val) == EmlOk, "set value");
    for (int i = 0; i <= N; i++) { VASSERT(d[i] == (i < N ? val : d0[i]), "value set in range only"); }
    VASSUME(start >= 0 && start <= end && end <= N);
#ifdef ANY
    VASSUME(start >= ANY - 1 && end <= ANY + 1);
#endif
    const EmlVector w = eml_vector_view(v, start, end);
    VASSERT(w.data == d + start && w.length == end - start, "view");
    VH_REACH("helpers");
#elif MODE == 3
    INPUT(d, N + 1);
    float d0[N + 1]; for (int i = 0; i <= N; i++) { d0[i] = d[i]; VASSUME(d0[i] >= -100.0f && d0[i] <= 100.0f); }
    VASSERT(eml_signal_hann_apply(d, N) == EmlOk, "window");
    for (int i = 0; i <= N; i++) {
        /* sin^2 form of the same window */
        const double s = sin(3.14159265358979323846 * i / (N > 1 ? N - 1 : 1));
        const double w = i == N ? 1.0 : N == 1 ? 1.0 : s * s;
        VCLOSE(d[i], d0[i] * w, 1e-4, "symmetric Hann window");
    }
    VH_REACH("window");
#elif MODE == 4
    /* normalised power spectrum */
#define NSPEC (1 + NFFT / 2)
    INPUT(in, LIN); INPUT(out, LOUT + 1);
    float o0[LOUT + 1]; for (int i = 0; i <= LOUT; i++) { o0[i] = out[i]; }
    for (int i = 0; i < LIN; i++) { VASSUME(in[i] >= -100.0f && in[i] <= 100.0f); }
    EmlVector vin = { in, LIN }, vout = { out, LOUT };
    float i0[LIN + 1]; for (int i = 0; i < LIN; i++) { i0[i] = in[i]; }
    const EmlError err = eml_audio_power_spectrogram(vin, vout, NFFT);
#if LOUT != NSPEC || LIN < NSPEC
    VASSERT(err != EmlOk, "mismatched lengths rejected");
    for (int i = 0; i <= LOUT; i++) { VASSERT(out[i] == o0[i], "nothing written on error"); }
    VH_REACH("rejected");
#else
    VASSERT(err == EmlOk, "accepted");
    for (int i = 0; i <= LOUT; i++) {
        if (i < NSPEC) { VCLOSE((double)out[i] * NFFT, (double)i0[i] * i0[i], 1e-6 * ((double)i0[i] * i0[i]) + 1e-37 * NFFT, "power"); } else { VASSERT(out[i] == o0[i], "only the spectrum written"); }
    }
    VH_REACH("power");
#endif
    for (int i = 0; i < LIN; i++) { VASSERT(in[i] == i0[i], "input only read"); }
#endif
}
