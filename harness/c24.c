/* Mel filter. MODE 1: concrete parameters, any spectrum; MODE 2: any frequencies, lengths (safety and refusals) */
#include "vh.h"
#include <math.h>
#if defined(VH_REPLAY) && MODE == 2
double vh_log10(double x);
float vh_powf(float b, float x);
#define log10 vh_log10
#define powf vh_powf
#endif
#include <eml_audio.h>
#define BINS (1 + NFFT / 2)
#if MODE == 1
static double ref_mels(double hz) { return 2595.0 * log10(1.0 + hz / 700.0); }
static double ref_hz(double m) { return 700.0 * (pow(10.0, m / 2595.0) - 1.0); }
static double ref_center(int n) { const double a = ref_mels(FMIN), b = ref_mels(FMAX); return ref_hz(a + n * (b - a) / (NMELS + 1)); }
#else
static double lx[64], ly[64], px[64], py[64];
static int nl, np;
/* any increasing functions */
double vh_log10(double x)
{
    for (int i = 0; i < nl; i++) { if (lx[i] == x) { return ly[i]; } }
    VH_IN(double, y);
    for (int i = 0; i < nl; i++) { if (lx[i] < x) { VASSUME(ly[i] < y); } else { VASSUME(ly[i] > y); } }
    lx[nl] = x; ly[nl] = y; nl++;
    return y;
}
float vh_powf(float b, float x)
{
    (void)b;
    for (int i = 0; i < np; i++) { if (px[i] == x) { return (float)py[i]; } }
    VH_IN(float, y);
    VASSUME(y > 0.0f); VASSUME(y < 1.0e6f);
    for (int i = 0; i < np; i++) { if (px[i] < x) { VASSUME(py[i] < y); } else { VASSUME(py[i] > y); } }
    px[np] = x; py[np] = y; np++;
    return y;
}
#endif
void harness(void)
{
#if MODE == 1
    VH_ARRAY(float, spec, BINS);
    VH_BUFFER(float, out, NMELS);
    float s0[BINS];
    for (int i = 0; i < BINS; i++) { VASSUME(spec[i] >= -1.0f); VASSUME(spec[i] <= 1.0f); s0[i] = spec[i]; }
    EmlAudioMel p = { NMELS, FMIN, FMAX, NFFT, RATE };
    for (int n = 0; n < NMELS + 2; n++) { VCLOSE(eml_audio_mel_center(p, n), ref_center(n), 2e-6 * (700 + FMAX), "centre frequency evenly spaced in mels"); }
    for (int k = 0; k < BINS; k++) { VCLOSE(eml_fft_freq(p, k), (double)k * RATE / NFFT, 1e-6 * RATE, "frequency of a bin"); }
    const EmlError err = eml_audio_melspec(p, (EmlVector){ spec, BINS }, (EmlVector){ out, NMELS });
    const double nyquist = RATE / 2.0;
    if (FMIN >= 0 && FMAX <= nyquist) { VASSERT(err == EmlOk, "filters inside the spectrum are accepted"); }
    if (FMIN < -1e-3 * RATE || FMAX > nyquist * (NFFT + 2.0) / (NFFT + 1.0) * 1.0001) { VASSERT(err != EmlOk, "filters outside the spectrum are refused"); VH_REACH("outside"); }
    if (err == EmlOk) {
        for (int m = 1; m <= NMELS; m++) {
            const double l = ref_center(m - 1), c = ref_center(m), r = ref_center(m + 1);
            double want = 0.0;
            for (int k = 0; k < BINS; k++) {
                const double f = (double)k * RATE / NFFT;
                const double a = (f - l) / (c - l), b = (r - f) / (r - c);
                const double w = a < b ? a : b;
                if (w > 0.0) { want += w * s0[k]; }
            }
            VCLOSE(out[m - 1], want, TOL, "triangular sum of the bins between the neighbouring centres");
        }
        VH_REACH("filtered");
    }
    for (int i = 0; i < BINS; i++) { VASSERT(spec[i] == s0[i], "spectrum unchanged"); }
#else
    VH_ARRAY(float, spec, LEN);
    VH_ARRAY(float, out, NMELS);
    float s0[LEN + 1], o0[NMELS + 1];
    for (int i = 0; i < LEN; i++) { s0[i] = spec[i]; }
    for (int i = 0; i < NMELS; i++) { o0[i] = out[i]; }
    VH_IN(float, fmin); VH_IN(float, fmax);
    VASSUME(fmin > -700.0f); VASSUME(fmax > -700.0f);
#ifdef DOWN
    VASSUME(fmin > fmax);
#else
    VASSUME(fmin < fmax);
#endif
    EmlAudioMel p = { NMELS, fmin, fmax, NFFT, RATE };
#ifdef OTHER
    VH_IN(int, mels); VASSUME(mels != NMELS);
    VASSERT(eml_audio_melspec((EmlAudioMel){ mels, fmin, fmax, NFFT, RATE }, (EmlVector){ spec, LEN }, (EmlVector){ out, NMELS }) != EmlOk, "another number of outputs is refused");
    for (int i = 0; i < NMELS; i++) { VASSERT(out[i] == o0[i], "nothing written"); }
    VH_REACH("other");
#else
    const EmlError err = eml_audio_melspec(p, (EmlVector){ spec, LEN }, (EmlVector){ out, NMELS });
    if (LEN < BINS) {
        VASSERT(err != EmlOk, "short spectrum is refused");
        for (int i = 0; i < NMELS; i++) { VASSERT(out[i] == o0[i], "nothing written"); }
        VH_REACH("short");
    } else if (err == EmlOk) { VH_REACH("filtered"); } else { VH_REACH("outside"); }
#endif
    for (int i = 0; i < LEN; i++) { VASSERT(spec[i] == s0[i], "spectrum unchanged"); }
#endif
}
