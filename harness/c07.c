/* Network inference equals the forward pass.
 * MODE 1: any weights, biases, input and buffer contents; MODE 2: generated code (gen.h), any input within +-10 and any number of earlier calls */
#include "vh.h"
#include <math.h>
#include <eml_net.h>
#define ID 0
#define RELU 1
#define LOGISTIC 2
#define SOFTMAX 3
#define TANH 4
static const EmlNetActivationFunction kinds[5] = { EmlNetActivationIdentity, EmlNetActivationRelu, EmlNetActivationLogistic, EmlNetActivationSoftmax, EmlNetActivationTanh };
#if MODE == 2
#include "gen.h"
#else
static const int SIZES[] = { NS };
static const int ACTS[] = { AS };
#define LAYERS ((int)(sizeof(ACTS) / sizeof(ACTS[0])))
#endif
#ifndef WIDE
#define WIDE 8
#endif
#if defined(VH_REPLAY)
#define CLOSE(a, b, msg) VASSERT(fabs((double)(a) - (double)(b)) <= 1e-3 * (1.0 + fabs((double)(b))), msg)
#else
#define CLOSE(a, b, msg) VASSERT((a) == (b), msg)
#endif

/* what is known of the exponential function, for implementations that compute the same in another way */
#if defined(VH_LL) && defined(FACTS)
#define FACT(c) VASSUME(c)
#else
#define FACT(c)
#endif
/* the definition, layer by layer */
static void activate(int kind, float *v, int n)
{
    if (kind == SOFTMAX) {
        float max = v[0], sum = 0.0f;
        for (int i = 1; i < n; i++) { if (v[i] > max) { max = v[i]; } }
        for (int i = 0; i < n; i++) { sum += expf(v[i] - max); }
        for (int i = 0; i < n; i++) {
            const float e = expf(v[i] - max);
            FACT(e > 0.0f); FACT(sum > 0.0f);
#ifdef FACTS
            /* the same with the logarithm of the sum */
            const float q = expf(v[i] - (max + logf(sum)));
            FACT(q > 0.0f); FACT(q * sum == e);
#endif
            v[i] = e / sum;
        }
        return;
    }
    for (int i = 0; i < n; i++) {
        if (kind == RELU) { v[i] = v[i] > 0.0f ? v[i] : 0.0f; }
        if (kind == LOGISTIC) { const float e = expf(-v[i]); FACT(e > 0.0f); FACT(e * expf(v[i]) == 1.0f); v[i] = 1.0f / (1.0f + e); }
        if (kind == TANH) { v[i] = tanhf(v[i]); }
    }
}

void harness(void)
{
    float a[WIDE], b[WIDE], x[WIDE];
    const int outputs = SIZES[LAYERS];
#if MODE == 1
    EmlNetLayer layers[LAYERS];
    const float *w[LAYERS], *bias[LAYERS];
    int largest = 0;
    for (int l = 0; l < LAYERS; l++) {
#ifdef PATTERN
        /* wide layers: given parameters, but for the last bias of every layer */
        VH_BUFFER(float, wl, SIZES[l] * SIZES[l + 1]); VH_BUFFER(float, bl, SIZES[l + 1]);
        for (int k = 0; k < SIZES[l] * SIZES[l + 1]; k++) { wl[k] = (float)((k * 7) % 11 - 5) / 64.0f; }
        for (int k = 0; k < SIZES[l + 1]; k++) { bl[k] = (float)((k * 5) % 13 - 4) / 8.0f; }
        VH_IN(float, last); VASSUME(last >= -8.0f && last <= 8.0f); bl[SIZES[l + 1] - 1] = last;
#else
        VH_ARRAY(float, wl, SIZES[l] * SIZES[l + 1]); VH_ARRAY(float, bl, SIZES[l + 1]);
#endif
        w[l] = wl; bias[l] = bl;
        layers[l].n_inputs = SIZES[l]; layers[l].n_outputs = SIZES[l + 1]; layers[l].weights = wl; layers[l].biases = bl; layers[l].activation = kinds[ACTS[l]];
        if (SIZES[l] > largest) { largest = SIZES[l]; }
        if (SIZES[l + 1] > largest) { largest = SIZES[l + 1]; }
    }
    VH_ARRAY(float, buffer1, largest + SPARE); VH_ARRAY(float, buffer2, largest + SPARE);
    EmlNet model = { LAYERS, layers, buffer1, buffer2, largest + SPARE };
#ifdef PATTERN
    for (int i = 0; i < SIZES[0]; i++) { x[i] = (float)((i * 3) % 7 - 2) / 4.0f; a[i] = x[i]; }
#else
    for (int i = 0; i < SIZES[0]; i++) { VH_IN(float, v); x[i] = v; a[i] = v; }
#endif
#else
    for (int i = 0; i < SIZES[0]; i++) { VH_IN(float, v); VASSUME(v >= -10.0f && v <= 10.0f); x[i] = v; a[i] = v; }
#endif
    VH_BUFFER(float, in, SIZES[0]);
    for (int i = 0; i < SIZES[0]; i++) { in[i] = x[i]; }
    for (int l = 0; l < LAYERS; l++) {
        for (int o = 0; o < SIZES[l + 1]; o++) {
            float sum = 0.0f;
#if MODE == 1
            for (int i = 0; i < SIZES[l]; i++) { sum += w[l][o + i * SIZES[l + 1]] * a[i]; }
            b[o] = sum + bias[l][o];
#else
            for (int i = 0; i < SIZES[l]; i++) { sum += (float)REF_W[l][i][o] * a[i]; }
            b[o] = sum + (float)REF_B[l][o];
#endif
        }
        activate(ACTS[l], b, SIZES[l + 1]);
        for (int o = 0; o < SIZES[l + 1]; o++) { a[o] = b[o]; }
    }
    VH_BUFFER(float, out, outputs);
#if MODE == 1
    VASSERT(eml_net_regress(&model, in, SIZES[0], out, outputs) == EmlOk, "accepted");
    for (int o = 0; o < outputs; o++) { CLOSE(out[o], a[o], "output of the forward pass"); }
    if (outputs == 1) { const float y = eml_net_regress1(&model, in, SIZES[0]); CLOSE(y, a[0], "single output of the forward pass"); }
    for (int o = 0; o < outputs; o++) { out[o] = -7.0f; }
    VASSERT(eml_net_regress(&model, in, SIZES[0], out, outputs) == EmlOk, "accepted again");
    for (int o = 0; o < outputs; o++) { CLOSE(out[o], a[o], "the same output in another call"); }
#else
    int best = 0;
    for (int o = 1; o < outputs; o++) { if (a[o] > a[best]) { best = o; } }
    if (outputs == 1) { best = a[0] > 0.5f ? 1 : 0; }
#ifdef INLINE
    /* an earlier call with other features */
    for (int i = 0; i < SIZES[0]; i++) { in[i] = i % 2 ? -3.5f : 4.25f; }
    net_predict(in, SIZES[0]);
    for (int i = 0; i < SIZES[0]; i++) { in[i] = x[i]; }
#else
    /* earlier calls leave any contents in the buffers */
    for (int i = 0; i < net.activations_length; i++) { VH_IN(float, v1); VH_IN(float, v2); net.activations1[i] = v1; net.activations2[i] = v2; }
#endif
#ifndef VH_REPLAY
    VASSERT(net_predict(in, SIZES[0]) == best, "class of the largest output");
#else
    const int got = net_predict(in, SIZES[0]);
    if (outputs == 1) { VASSERT(got == best || fabs(a[0] - 0.5) < 1e-3, "class of the largest output"); }
    else { VASSERT(got >= 0 && got < outputs && (a[best] - a[got] <= 1e-3 * (1.0 + fabs(a[best]))), "class of the largest output"); }
#endif
#ifdef INLINE
    float f1[BUFFERS], f2[BUFFERS];
    for (int i = 0; i < BUFFERS; i++) { VH_IN(float, v1); VH_IN(float, v2); f1[i] = v1; f2[i] = v2; }
    VASSERT(net_infer(in, SIZES[0], f1, f2, BUFFERS) == EmlOk, "accepted");
    for (int o = 0; o < outputs; o++) { CLOSE(f2[o], a[o], "output of the forward pass"); }
    VASSERT(net_infer(in, SIZES[0] + 1, f1, f2, BUFFERS) != EmlOk && net_infer(in, SIZES[0] - 1, f1, f2, BUFFERS) != EmlOk, "another number of features");
    VASSERT(net_infer(in, SIZES[0], f1, f2, BUFFERS - 1) != EmlOk, "too small buffers");
    VASSERT(net_predict(in, SIZES[0] + 1) < 0 && net_predict(in, SIZES[0] - 1) < 0, "another number of features");
#else
    VASSERT(net_regress(in, SIZES[0], out, outputs) == EmlOk, "accepted");
    for (int o = 0; o < outputs; o++) { CLOSE(out[o], a[o], "output of the forward pass"); }
    if (outputs == 1) { const float y = net_regress1(in, SIZES[0]); CLOSE(y, a[0], "single output of the forward pass"); }
    VASSERT(net_regress(in, SIZES[0] + 1, out, outputs) != EmlOk && net_regress(in, SIZES[0] - 1, out, outputs) != EmlOk, "another number of features");
    VASSERT(net_predict(in, SIZES[0] + 1) < 0 && net_predict(in, SIZES[0] - 1) < 0, "another number of features");
#endif
#endif
    for (int i = 0; i < SIZES[0]; i++) { VASSERT(in[i] == x[i], "input unchanged"); }
    VH_REACH("computed");
}
