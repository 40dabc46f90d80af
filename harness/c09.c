/* Class and probability outputs of a network whose output layer has the given values (its weights are zero, so that the biases are its inputs).
 * MODE 1: class; 2: probabilities of an identity output layer; 3: softmax; 6: softmax of large values, in floating point; 4: eml_argmax_fixed32; 5: probabilities that are no numbers */
#include "vh.h"
#include <math.h>
#if !defined(VH_REPLAY) && !defined(VH_LL)
float nondet_float(void);
/* what is known of the exponential function in single precision */
#define CALLS 16
static float seen_x[CALLS], seen_y[CALLS];
static int seen;
float expf(float x)
{
#if MODE == 6
    return x == 0.0f ? 1.0f : x < -105.0f ? 0.0f : x > 89.0f ? INFINITY : nondet_float();
#endif
    float y = nondet_float();
    __CPROVER_assume(y >= 0.0f);
    if (x == 0.0f) { y = 1.0f; }
    __CPROVER_assume(x > 0.0f || y <= 1.0f);
    __CPROVER_assume(x < 0.0f || y >= 1.0f);
    __CPROVER_assume(x < -87.0f || y > 1e-38f);
    __CPROVER_assume(x > 88.0f || y < 2e38f);
    __CPROVER_assume(x < 89.0f || y > 3.402823466e38f);
    if (x < -105.0f) { y = 0.0f; }
    for (int i = 0; i < seen; i++) { __CPROVER_assume(seen_x[i] != x || seen_y[i] == y); }
    if (seen < CALLS) { seen_x[seen] = x; seen_y[seen] = y; seen++; }
    return y;
}
float logf(float x) { const float y = nondet_float(); __CPROVER_assume(x != 1.0f || y == 0.0f); __CPROVER_assume(!(x > 1.0f) || (y >= 0.0f && y <= 90.0f)); return y; }
float tanhf(float x) { return nondet_float(); }
#endif
#if defined(VH_LL)
static float limited_expf(float x);
#define expf limited_expf
#endif
#include <eml_net.h>
#include <eml_net_fixedpoint.h>
#if defined(VH_LL)
#undef expf
/* an argument above this overflows */
static float limited_expf(float x) { VASSERT(x <= 100.0f, "the exponential function does not overflow"); return expf(x); }
#endif
#ifndef N
#define N 3
#endif
#ifndef VTOL
#ifdef VH_LL
#define VTOL 1e-9
#else
#define VTOL 0.0005
#endif
#endif
#ifndef EXTRA
#define EXTRA 0
#endif
#if defined(VH_LL)
#define FACT(c) VASSUME(c)
#else
#define FACT(c)
#endif
static const float zeros[N * 2];
static float hidden_biases[2];

void harness(void)
{
#if MODE == 4
    eml_fixed32_t v[N];
    VH_IN(int, n); VASSUME(n >= -1 && n <= N);
    for (int i = 0; i < N; i++) { VH_IN(int32_t, x); v[i] = x; }
    const int32_t got = eml_argmax_fixed32(v, n);
    if (n <= 0) { VASSERT(got == -1, "no largest of nothing"); VH_REACH("empty"); return; }
    VASSERT(got >= 0 && got < n, "an index");
    if (got >= 0 && got < n) {
        for (int i = 0; i < n; i++) { VASSERT(v[i] <= v[got] && (i >= got || v[i] < v[got]), "the first of the largest"); }
    }
    VH_REACH("largest");
#else
    float x[N], b1[N + EXTRA], b2[N + EXTRA], feature[1] = { 0.0f };
#ifdef WIDE
    /* three values: the first, the one numbered WIDE, and the others */
    VH_IN(float, first); VH_IN(float, one); VH_IN(float, other);
    for (int i = 0; i < N; i++) { x[i] = i == 0 ? first : i == WIDE ? one : other; }
    for (int i = 0; i < N + EXTRA; i++) { b1[i] = 3.0f; b2[i] = -3.0f; }
#define EACH(i) (i = 0; i < N; i = i == 0 ? 1 : i < WIDE ? WIDE : i < N - 1 ? N - 1 : N)
#else
    for (int i = 0; i < N; i++) { VH_IN(float, v); x[i] = v; }
    for (int i = 0; i < N + EXTRA; i++) { VH_IN(float, u); VH_IN(float, v); b1[i] = u; b2[i] = v; }
#define EACH(i) (i = 0; i < N; i++)
#endif
    int n;
    const EmlNetLayer layers[2] = {
        { 1, 1, zeros, hidden_biases, EmlNetActivationIdentity },
        { N, 1, zeros, x, MODE == 3 || MODE == 6 ? EmlNetActivationSoftmax : EmlNetActivationIdentity },
    };
    EmlNet model = { 2, layers, b1, b2, N + EXTRA };
    const int outputs = N == 1 ? 2 : N;
    float p[N + 2];
    for (int i = 0; i < N + 2; i++) { p[i] = -7.0f; }
#if MODE == 1
#ifdef VH_LL
    for (int i = 0; i < N; i++) { VASSUME(x[i] <= 1e30f); VASSUME(x[i] >= -1e30f); }
#else
    for (int i = 0; i < N; i++) { VASSUME(x[i] <= 3.402823466e38f && x[i] >= -INFINITY); }
    VASSUME(x[0] > -INFINITY);
#endif
    const int32_t got = eml_net_predict(&model, feature, 1);
    if (N == 1) {
        VASSERT(got == (x[0] > 0.5f ? 1 : 0), "output above one half");
    } else {
        VASSERT(got >= 0 && got < N, "a class");
        if (got >= 0 && got < N) {
            for (int i = 0; i < N; i++) { VASSERT(x[i] <= x[got] && (i >= got || x[i] < x[got]), "the first of the largest outputs"); }
        }
    }
    VH_REACH("class");
#elif MODE == 2
    double sum = 0.0;
    for (int i = 0; i < N; i++) { VASSUME(x[i] <= 1000.0f); VASSUME(x[i] >= -1000.0f); sum += x[i]; }
    const EmlError e = eml_net_predict_proba(&model, feature, 1, p, outputs);
    if (N == 1) {
        VASSERT(e == EmlOk, "accepted");
        VCLOSE(p[1], x[0], 0.0, "probability of the second class");
        VCLOSE(p[0], 1.0 - x[0], 1e-7 + fabs(x[0]) * 1e-7, "probability of the first class");
        VH_REACH("single");
    } else {
        /* margin: 0.001 itself, and rounding */
        if (sum > 0.99901 && sum < 1.00099) {
            VASSERT(e == EmlOk, "accepted when the sum is one");
            for (int i = 0; i < N; i++) { VASSERT(p[i] == x[i], "the outputs themselves"); }
            VH_REACH("probabilities");
        }
        if (sum < 0.99899 || sum > 1.00101) { VASSERT(e != EmlOk, "refused when the sum is not one"); VH_REACH("refused"); }
    }
    VASSERT(p[outputs] == -7.0f, "writes only its outputs");
    VASSERT(eml_net_predict_proba(&model, feature, 1, p, outputs + 1) != EmlOk && eml_net_predict_proba(&model, feature, 1, p, outputs - 1) != EmlOk, "another number of outputs");
#elif MODE == 5
    bool numbers = true, infinite = false;
    for (int i = 0; i < N; i++) { if (x[i] != x[i]) { numbers = false; } if (x[i] > 1e38f || x[i] < -1e38f) { infinite = true; } }
    VASSUME(!numbers || infinite);
    const EmlError e = eml_net_predict_proba(&model, feature, 1, p, outputs);
    if (!numbers) { VASSERT(e != EmlOk, "refused when an output is no number"); VH_REACH("no number"); }
    else { float s = 0.0f; for (int i = 0; i < N; i++) { s += x[i] > 1e38f || x[i] < -1e38f ? 1.0f : 0.0f; } if (s == 1.0f && x[0] > 1e38f) { VASSERT(N == 1 || x[N - 1] < -1e37f || e != EmlOk, "refused when the sum is far from one"); VH_REACH("far"); } }
#elif MODE == 3 || MODE == 6
    float max = x[0];
    for (int i = 1; i < N; i++) { if (x[i] > max) { max = x[i]; } }
    for (int i = 0; i < N; i++) { VASSUME(x[i] <= 1e30f && x[i] >= -1e30f); }
#if MODE == 6
    /* large: the exponentials are 0 or 1 */
    VASSUME(max >= 1.7e7f || max <= -1.7e7f);
    for (int i = 0; i < N; i++) { VASSUME(x[i] == max || (double)x[i] <= (double)max - 110.0); }
#endif
#if defined(VH_LL)
    float e[N], s = 0.0f;
    for (int i = 0; i < N; i++) {
        e[i] = expf(x[i] - max); s += e[i];
        VASSUME(e[i] > 0.0f);
        if (x[i] == max) { VASSUME(e[i] == 1.0f); }
        for (int j = 0; j < i; j++) {
#ifdef WIDE
            if (i > WIDE || (i < WIDE && i > 1) || (i == WIDE && j > 1)) { continue; }
#endif
            if (x[i] < x[j]) { VASSUME(e[i] < e[j]); } else if (x[i] > x[j]) { VASSUME(e[i] > e[j]); } else { VASSUME(e[i] == e[j]); }
        }
    }
#ifdef FACTS
    /* the same computed with the logarithm of the sum */
    for (int i = 0; i < N; i++) { const float q = expf(x[i] - (max + logf(s))); VASSUME(q > 0.0f); VASSUME(q * s == e[i]); }
#endif
#endif
    const EmlError err = eml_net_regress(&model, feature, 1, p, N);
    VASSERT(err == EmlOk, "accepted");
    double sum = 0.0;
    for (int i = 0; i < N; i++) {
#if defined(VH_LL)
        VASSERT(p[i] > 0.0f, "positive");
#else
        VASSERT(p[i] >= 0.0f && ((double)x[i] < (double)max - 80.0 || p[i] > 0.0f), "positive");
#endif
        sum += p[i];
    }
    VCLOSE(sum, 1.0, VTOL, "the sum is one");
#if defined(VH_LL) || defined(VH_REPLAY)
    for EACH(n) {
        const int i = n;
        int j;
        for EACH(j) {
#ifdef VH_REPLAY
            /* rounding */
            if (x[i] <= x[j]) { VASSERT(p[i] <= p[j] * 1.0001f + 1e-30f, "in the order of the inputs"); }
            if (x[i] < x[j] - 1e-3f && x[j] > max - 50.0f) { VASSERT(p[i] < p[j], "strictly in the order of the inputs"); }
#else
            if (x[i] <= x[j]) { VASSERT(p[i] <= p[j], "in the order of the inputs"); }
            if (x[i] < x[j]) { VASSERT(p[i] < p[j], "strictly in the order of the inputs"); }
#endif
        }
    }
    if (N > 1) {
        float q[N + 2];
        VASSERT(eml_net_predict_proba(&model, feature, 1, q, N) == EmlOk, "probabilities accepted");
        for (int i = 0; i < N; i++) { VASSERT(q[i] == p[i], "the same probabilities"); }
    }
#endif
    VH_REACH("softmax");
#endif
#endif
}
