// The Python extension functions (bindings/ of the repository, unmodified), with stand-ins for pybind11 and the C++ library.
#include "vh_std.hpp"
#include "vh.h"
#include <math.h>
#ifdef EML_AUDIO
#include <eml_audio.cpp>
#else
#include <eml_signal.cpp>
#endif
namespace py = pybind11;

static bool vh_valid;
extern "C" char *vh_getenv(const char *) { return nullptr; }   // no debugging output
extern "C" void vh_on_throw(int pointer)
{
    VASSERT(!pointer, "an exception that Python can show is thrown");
    VASSERT(!vh_valid, "valid arguments are accepted");
    VH_REACH("refused");
}
static void accepted(void) { VASSERT(vh_valid, "invalid arguments are refused"); VH_REACH("accepted"); }

// an array of the given shape with any contents, in memory of exactly that size
static py::array_t<float> floats(int nd, int d0, int d1)
{
    if (nd == 0) { d0 = 1; }
    py::array_t<float> a((py::ssize_t)d0 * (nd > 1 ? d1 : 1));
    a.nd = nd; a.dim[0] = d0; a.dim[1] = d1; a.dim[2] = 1;
    for (int i = 0; i < d0 * (nd > 1 ? d1 : 1); i++) { VH_IN(float, x); VASSUME(x >= -1000 && x <= 1000); a.values[i] = x; }
    return a;
}
static float *copied(const py::array_t<float> &a) { float *p = (float *)malloc(sizeof(float) * a.size()); for (int i = 0; i < a.size(); i++) { p[i] = a.values[i]; } return p; }
static void unmodified(const py::array_t<float> &a, const float *p) { for (int i = 0; i < a.size(); i++) { VASSERT(a.values[i] == p[i], "inputs are not modified"); } }
static void result(const py::array_t<float> &r, int n) { VASSERT(r.nd == 1, "a result of one dimension"); VASSERT(r.dim[0] == n, "length of the result"); }

// long data: given contents but for three values
static py::array_t<float> long_data(int n)
{
    py::array_t<float> a((py::ssize_t)n);
    a.nd = 1; a.dim[0] = n; a.dim[1] = 1; a.dim[2] = 1;
    for (int i = 0; i < n; i++) { a.values[i] = (float)(i % 7); }
    for (int k = 0; k < 3; k++) { VH_IN(float, x); VASSUME(x >= -1000 && x <= 1000); a.values[k * (n - 1) / 2] = x; }
    return a;
}

extern "C" void vh_body(void)
{
#ifndef PREV
#define PREV 0  // length of what an earlier call was given; 0 for no such call
#endif
#ifdef IIR
#ifdef LONG
    py::array_t<float> sos((py::ssize_t)6), data = long_data(LEN);
    sos.nd = 2; sos.dim[0] = 1; sos.dim[1] = 6; sos.dim[2] = 1;
    const float given[6] = { 0.5f, 0.25f, 2.0f, 1.0f, 0.0f, 0.0f };
    for (int i = 0; i < 6; i++) { sos.values[i] = given[i]; }
#else
    py::array_t<float> sos = floats(ND, STAGES, COLUMNS), data = floats(DATA_ND, LEN, 1);
#endif
    float *c = copied(sos), *x = copied(data);
    float states[4 * STAGES + 1];
    for (int i = 0; i < 4 * STAGES + 1; i++) { states[i] = 0.0f; }
    EmlIIR f = { STAGES, states, 4 * STAGES, c, 6 * STAGES };
    vh_valid = ND == 2 && COLUMNS == 6 && DATA_ND == 1;
    if (vh_valid) { vh_valid = eml_iir_check(f) == EmlOk; }
    if (PREV && vh_valid) { py::array_t<float> earlier = floats(1, PREV, 1); iirfilter_py(sos, earlier); }
    py::array_t<float> got = iirfilter_py(sos, data);
    accepted();
    result(got, LEN);
    for (int i = 0; i < LEN; i++) { VASSERT(got.values[i] == eml_iir_filter(f, x[i]), "what the C function computes"); }
    unmodified(sos, c); unmodified(data, x);
#endif
#ifdef RFFT
    py::array_t<float> in = floats(ND, LEN, 1);
    float *x = copied(in);
    float re[LEN + 1], im[LEN + 1], s[LEN / 2 + 1], co[LEN / 2 + 1];
    for (int i = 0; i < LEN; i++) { re[i] = i < in.size() ? x[i] : 0.0f; im[i] = 0.0f; }
    EmlFFT fft = { LEN / 2, s, co };
    vh_valid = ND == 1;
    if (vh_valid) { vh_valid = eml_fft_fill(fft, LEN) == EmlOk; }
    if (vh_valid) { vh_valid = eml_fft_forward(fft, re, im, LEN) == EmlOk; }
    if (PREV && vh_valid) { py::array_t<float> earlier = floats(1, PREV, 1); rfft_py(earlier); }
    py::array_t<float> got = rfft_py(in);
    accepted();
    result(got, LEN);
    for (int i = 0; i < LEN; i++) { VASSERT(got.values[i] == re[i], "what the C function computes"); }
    unmodified(in, x);
#endif
#ifdef MELFILTER
    py::array_t<float> in = floats(ND, LEN, 1);
    float *x = copied(in);
    const EmlAudioMel params = { NMELS, FMIN, FMAX, NFFT, RATE };
    float out[NMELS > 0 ? NMELS : 1];
    vh_valid = ND == 1 && LEN == 1 + NFFT / 2 && NMELS >= 0;
    if (vh_valid) { EmlVector inv = { x, LEN }, outv = { out, NMELS }; vh_valid = eml_audio_melspec(params, inv, outv) == EmlOk; }
    if (PREV && vh_valid) { py::array_t<float> earlier = long_data(LEN); melfilter_py(earlier, RATE, NFFT, NMELS, FMIN, FMAX); }
    py::array_t<float> got = melfilter_py(in, RATE, NFFT, NMELS, FMIN, FMAX);
    accepted();
    result(got, NMELS);
    for (int i = 0; i < NMELS; i++) { VASSERT(got.values[i] == out[i], "what the C function computes"); }
    unmodified(in, x);
#endif
#ifdef MELSPEC
    py::array_t<float> in = floats(ND, LEN, 1);
    float *x = copied(in);
    float work[LEN + 1], temp[LEN + 1], s[NFFT / 2 + 1], co[NFFT / 2 + 1];
    for (int i = 0; i < LEN; i++) { work[i] = i < in.size() ? x[i] : 0.0f; temp[i] = 0.0f; }
    const EmlAudioMel params = { NMELS, FMIN, FMAX, NFFT, RATE };
    EmlFFT fft = { NFFT / 2, s, co };
    vh_valid = ND == 1 && LEN == NFFT && NMELS >= 0;
    if (vh_valid) { vh_valid = eml_fft_fill(fft, NFFT) == EmlOk; }
    if (vh_valid) { EmlVector w = { work, LEN }, t = { temp, LEN }; vh_valid = NMELS <= LEN; } if (vh_valid) { EmlVector w = { work, LEN }, t = { temp, LEN }; vh_valid = eml_audio_melspectrogram(params, fft, w, t) == EmlOk; }
    if (PREV && vh_valid) { py::array_t<float> earlier = long_data(LEN); melspectrogram_py(earlier, RATE, NFFT, NMELS, FMIN, FMAX); }
    py::array_t<float> got = melspectrogram_py(in, RATE, NFFT, NMELS, FMIN, FMAX);
    accepted();
    result(got, NMELS);
    for (int i = 0; i < NMELS; i++) { VASSERT(got.values[i] == work[i], "what the C function computes"); }
    unmodified(in, x);
#endif
#ifdef SPARSE
    py::array_t<float> in = floats(ND, LEN, 1), lut = floats(LUT_ND, NLUT, 1);
    float *x = copied(in), *l = copied(lut);
    py::array_t<int> starts(NSTARTS), stops(NSTOPS);
    starts.nd = STARTS_ND; stops.nd = STOPS_ND; starts.dim[1] = stops.dim[1] = starts.dim[2] = stops.dim[2] = 1;
    int a[NSTARTS + 1], b[NSTOPS + 1];
    for (int i = 0; i < NSTARTS; i++) { VH_IN(int, v); VASSUME(v >= LO && v <= HI); starts.values[i] = a[i] = v; }
    for (int i = 0; i < NSTOPS; i++) { VH_IN(int, v); VASSUME(v >= LO && v <= HI); stops.values[i] = b[i] = v; }
    vh_valid = ND == 1 && LUT_ND == 1 && STARTS_ND == 1 && STOPS_ND == 1 && NSTARTS == NSTOPS;
    long need = 0;
    for (int i = 0; vh_valid && i < NSTARTS; i++) {
        if (a[i] > b[i]) { continue; }
        if (a[i] < 0 || b[i] >= LEN) { vh_valid = false; break; }
        need += (long)b[i] - a[i] + 1;
    }
    if (need > NLUT) { vh_valid = false; }
    float out[NSTARTS + 1];
    if (vh_valid) { vh_valid = eml_sparse_filterbank(x, out, NSTARTS, a, b, l) == EmlOk; }
    if (PREV && vh_valid) { py::array_t<float> earlier = floats(1, LEN, 1); sparse_filterbank_py(earlier, starts, stops, lut); }
    py::array_t<float> got = sparse_filterbank_py(in, starts, stops, lut);
    accepted();
    result(got, NSTARTS);
    for (int i = 0; i < NSTARTS; i++) { VASSERT(got.values[i] == out[i], "what the C function computes"); }
    unmodified(in, x); unmodified(lut, l);
    for (int i = 0; i < NSTARTS; i++) { VASSERT(starts.values[i] == a[i], "inputs are not modified"); VASSERT(stops.values[i] == b[i], "inputs are not modified"); }
#endif
}

extern "C" void harness(void)
{
#ifdef VH_REPLAY
    try { vh_body(); } catch (const std::exception &) { vh_on_throw(0); } catch (...) { vh_on_throw(1); }
#else
    vh_body();
#endif
}
