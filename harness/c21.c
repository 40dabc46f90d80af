/* FFT. MODE 1: equals the discrete Fourier transform; MODE 2: refused lengths; MODE 3: the order in which the values are taken */
#include "vh.h"
#include <math.h>
#include <eml_fft.h>
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
void harness(void)
{
#if MODE == 1
    VH_BUFFER(float, s, N / 2); VH_BUFFER(float, c, N / 2);
    EmlFFT table = { N / 2, s, c };
    VASSERT(eml_fft_fill(table, N) == EmlOk, "table filled");
    float s0[N / 2 + 1], c0[N / 2 + 1];
    for (int i = 0; i < N / 2; i++) {
        VCLOSE(c[i], cos(2.0 * M_PI * i / N), 2e-7, "cosine table"); VCLOSE(s[i], sin(2.0 * M_PI * i / N), 2e-7, "sine table");
        s0[i] = s[i]; c0[i] = c[i];
    }
#ifdef POINTS
    /* long transforms: any signal at some points, and zero at others */
    static const int points[] = { POINTS };
#define COUNT ((int)(sizeof(points) / sizeof(points[0])))
    VH_BUFFER(float, re, N); VH_BUFFER(float, im, N);
    float r0[N], i0[N];
    for (int i = 0; i < N; i++) { re[i] = 0.0f; im[i] = 0.0f; }
    for (int p = 0; p < COUNT; p++) { VH_IN(float, a); VH_IN(float, b); re[points[p]] = a; im[points[p]] = b; }
#define SUM(j) for (int p = 0, j = points[0]; p < COUNT; p++, j = points[p < COUNT ? p : 0])
#else
    VH_ARRAY(float, re, N); VH_ARRAY(float, im, N);
    float r0[N], i0[N];
#define SUM(j) for (int j = 0; j < N; j++)
#endif
    SUM(i) {
        VASSUME(re[i] >= -1.0f); VASSUME(re[i] <= 1.0f); VASSUME(im[i] >= -1.0f); VASSUME(im[i] <= 1.0f);
        r0[i] = re[i]; i0[i] = im[i];
    }
    VASSERT(eml_fft_forward(table, re, im, N) == EmlOk, "accepted");
    for (int k = 0; k < N; k++) {
        double wr = 0.0, wi = 0.0;
        SUM(j) {
            const double a = -2.0 * M_PI * ((j * k) % N) / N;
            wr += r0[j] * cos(a) - i0[j] * sin(a);
            wi += r0[j] * sin(a) + i0[j] * cos(a);
        }
        VCLOSE(re[k], wr, 1e-6 * N, "real part"); VCLOSE(im[k], wi, 1e-6 * N, "imaginary part");
    }
    for (int i = 0; i < N / 2; i++) { VASSERT(s[i] == s0[i] && c[i] == c0[i], "table unchanged"); }
    VH_REACH("transformed");
#elif MODE == 3
    VH_IN(uint32_t, x); VH_IN(uint8_t, n);
    VASSUME(n <= 31 && x < (1UL << n));
    const size_t y = reverse_bits(x, n);
    for (int i = 0; i < n; i++) { VASSERT(((x >> i) & 1) == ((y >> (n - 1 - i)) & 1), "the bits in reverse"); }
    VASSERT(y < (1UL << n), "no other bits");
    VH_REACH("reversed");
#else
    VH_ARRAY(float, re, 4); VH_ARRAY(float, im, 4); VH_ARRAY(float, s, 2); VH_ARRAY(float, c, 2);
    float r0[4], i0[4];
    for (int i = 0; i < 4; i++) { r0[i] = re[i]; i0[i] = im[i]; }
    const float s1 = s[0], c1 = c[0], s2 = s[1], c2 = c[1];
    VH_IN(size_t, n); VH_IN(int, length);
    VASSUME(n < 1UL << BITS); VASSUME(length >= 0);
    EmlFFT table = { length, s, c };
    bool power = false;
    for (int k = 0; k < BITS; k++) { if (n == 1UL << k) { power = true; break; } if (n < 1UL << k) { break; } }
    if ((size_t)length != n / 2) { VASSERT(eml_fft_fill(table, n) != EmlOk, "table of another length refused"); VH_REACH("table"); }
    VASSERT(s[0] == s1 && c[0] == c1 && s[1] == s2 && c[1] == c2, "table unchanged");
    VASSUME(!power || (size_t)length != n / 2);
    VASSERT(eml_fft_forward(table, re, im, n) != EmlOk, "length refused");
    for (int i = 0; i < 4; i++) { VASSERT(re[i] == r0[i] && im[i] == i0[i], "data unchanged"); }
    VASSERT(s[0] == s1 && c[0] == c1 && s[1] == s2 && c[1] == c2, "table unchanged");
    VH_REACH("refused");
#endif
}
