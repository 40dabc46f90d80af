/* Network inference: any description and any argument lengths.
 * MODE 6: one layer on its own; 1: class; 2: probabilities; 3: regression; 4: single regression; 5: softmax and argmax on any buffer */
#include "vh.h"
#include <math.h>
#if !defined(VH_REPLAY) && !defined(VH_LL)
/* any value: their results do not matter here */
float nondet_float(void);
float expf(float x) { return nondet_float(); }
float logf(float x) { return nondet_float(); }
float tanhf(float x) { return nondet_float(); }
#endif
#include <eml_net.h>
#ifndef MAXL
#define MAXL 3
#endif
#ifndef MAXN
#define MAXN 2
#endif
/* n values at the very end of a block, so that an overrun is seen */
#define ROOM (MAXN * MAXN + 1)
static float *values(float *block, int32_t n, bool null)
{
    return null ? NULL : block + ROOM - (n > 0 ? n : 0);
}
#if MODE == 6
void harness(void)
{
    static float weights[ROOM], biases[ROOM], block1[ROOM], block2[ROOM];
    EmlNetLayer l;
    VH_IN(int32_t, in); VH_IN(int32_t, out); VH_IN(int32_t, in_length); VH_IN(int32_t, out_length);
    VASSUME(in <= MAXN && out <= MAXN && in_length <= MAXN && out_length <= MAXN);
    VH_IN(bool, no_weights); VH_IN(bool, no_biases); VH_IN(int, activation); VASSUME(activation >= -1 && activation <= EmlNetActivationFunctions + 1);
    l.n_inputs = in; l.n_outputs = out; l.activation = (EmlNetActivationFunction)activation;
    l.weights = values(weights, in > 0 && out > 0 ? in * out : 0, no_weights); l.biases = values(biases, out, no_biases);
    float *i = values(block1, in_length, false), *o = values(block2, out_length, false);
    const EmlError e = eml_net_layer_forward(&l, i, in_length, o, out_length);
    const bool good = in >= 0 && out >= 0 && in_length >= in && out_length >= out && !no_weights && !no_biases && activation >= 0 && activation < EmlNetActivationFunctions;
    VASSERT((e == EmlOk) == good, "accepted exactly when the layer is complete and the lengths are enough");
    if (good) { VH_REACH("computed"); } else { VH_REACH("refused"); }
}
#else
#ifdef WARM
/* a small network, used before the one in question */
static void warm(void)
{
    static float w[1] = {1.0f}, b[1] = {0.0f}, b1[1], b2[1], x[1] = {0.25f}, out[2];
    EmlNetLayer l[2] = { { 1, 1, w, b, EmlNetActivationIdentity }, { 1, 1, w, b, EmlNetActivationIdentity } };
    EmlNet net = { 2, l, b1, b2, 1 };
    VASSERT(eml_net_predict(&net, x, 1) == 0, "class of the small network");
    VASSERT(eml_net_predict_proba(&net, x, 1, out, 2) == EmlOk && out[0] == 0.75f, "probabilities of the small network");
}
#endif
static float weights[MAXL][ROOM], biases[MAXL][ROOM], block1[ROOM], block2[ROOM], block3[ROOM], block4[ROOM];
void harness(void)
{
    EmlNetLayer layers[MAXL];
#ifdef WARM
    warm();
#endif
    VH_IN(int32_t, n_layers); VASSUME(n_layers >= -1 && n_layers <= MAXL);
    VH_IN(int32_t, buffers); VASSUME(buffers >= -1 && buffers <= MAXN);
    VH_IN(int32_t, length); VASSUME(length >= -1 && length <= MAXN);
    VH_IN(bool, no_layers); VH_IN(bool, no_buffer1); VH_IN(bool, no_buffer2); VH_IN(bool, no_features); VH_IN(bool, no_model); VH_IN(bool, no_out);
    bool sizes = true, present = true, known = true; int32_t largest = -1;
    for (int i = 0; i < MAXL; i++) {
        VH_IN(int32_t, in); VASSUME(in >= -1 && in <= MAXN);
        VH_IN(int32_t, out); VASSUME(out >= -1 && out <= MAXN);
        VH_IN(bool, no_weights); VH_IN(bool, no_biases); VH_IN(int, activation); VASSUME(activation >= -1 && activation <= EmlNetActivationFunctions + 1);
        layers[i].n_inputs = in; layers[i].n_outputs = out;
        layers[i].weights = values(weights[i], in > 0 && out > 0 ? in * out : 0, no_weights); layers[i].biases = values(biases[i], out, no_biases);
        layers[i].activation = (EmlNetActivationFunction)activation;
        if (i < n_layers) {
            sizes = sizes && in >= 0 && out >= 0;
            present = present && !no_weights && !no_biases;
            known = known && activation >= 0 && activation < EmlNetActivationFunctions;
            if (in > largest) { largest = in; }
            if (out > largest) { largest = out; }
        }
    }
    float *b1 = values(block1, buffers, no_buffer1), *b2 = values(block2, buffers, no_buffer2), *features = values(block3, length, no_features);
    EmlNet net = { n_layers, no_layers ? NULL : layers, b1, b2, buffers };
    EmlNet *model = no_model ? NULL : &net;
    const bool valid = !no_model && !no_layers && !no_buffer1 && !no_buffer2 && n_layers >= 1;
    const bool good = valid && !no_features && n_layers >= 2 && length == layers[0].n_inputs && buffers >= largest && sizes && present && known;
    const int32_t outputs = n_layers >= 1 ? layers[n_layers - 1].n_outputs : 0;
#if MODE == 1
    const int32_t c = eml_net_predict(model, features, length);
    if (good && outputs >= 1) {
        /* -1: no output is larger than minus infinity */
        VASSERT(c >= -1 && c < (outputs == 1 ? 2 : outputs), "a class of the model");
#ifndef VH_REPLAY
        VH_REACH("class");
#endif
    } else {
        VASSERT(c < 0, "an error is reported as a negative value");
        VH_REACH("refused");
    }
#elif MODE == 4
    const float y = eml_net_regress1(model, features, length);
    if (good && outputs == 1) { VH_REACH("value"); } else { VASSERT(y != y, "an error is reported as not-a-number"); VH_REACH("refused"); }
#else
    VH_IN(int32_t, out_length); VASSUME(out_length >= -1 && out_length <= MAXN + 1);
    float *out = values(block4, out_length, no_out);
    const float first = no_out || out_length < 1 ? 0.0f : out[0];
    const int32_t expected = MODE == 2 && outputs == 1 ? 2 : outputs;
#if MODE == 2
    const EmlError e = eml_net_predict_proba(model, features, length, out, out_length);
#else
    const EmlError e = eml_net_regress(model, features, length, out, out_length);
#endif
    if (good && !no_out && out_length == expected) {
#if MODE == 2
        VASSERT(e == EmlOk || e == EmlPostconditionFailed, "accepted, or the probabilities do not sum to one");
#else
        VASSERT(e == EmlOk, "accepted");
#endif
        VH_REACH("computed");
    } else {
        VASSERT(e != EmlOk, "an error is reported");
        if (!no_out && out_length >= 1) { VASSERT(out[0] == first, "nothing is written"); }
        VH_REACH("refused");
    }
#endif
    VH_REACH("done");
}
#endif
