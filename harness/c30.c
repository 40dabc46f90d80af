/* Quantizer. MODE 1: bit precise (CBMC), MODE 2: reals, symbolic scale, MODE 3: reals, round trip with a concrete scale */
#include "vh.h"
#include <eml_common.h>
#include <eml_quantizer.h>
#ifndef N
#define N 2
#endif
void harness(void)
{
#if MODE == 1
    VH_IN(float, scale); VH_ARRAY(float, values, N);
    VH_ARRAY(int16_t, out, N);
#ifdef REFUSE
    VH_IN(int, in_length); VH_IN(int, out_length);
    VASSUME(in_length != out_length);
#else
    const int in_length = N, out_length = N;
#endif
    VH_IN(int, under); VH_IN(int, over);
    VASSUME(scale > -3.0e38f && scale < 3.0e38f);
    for (int i = 0; i < N; i++) { VASSUME(values[i] > -3.0e38f && values[i] < 3.0e38f); }
    float v0[N]; int16_t o0[N];
    for (int i = 0; i < N; i++) { v0[i] = values[i]; o0[i] = out[i]; }
    EmlQuantizer q = { scale };
    int u = under, o = over;
    const EmlError err = eml_quantizer_check_forward_int16(&q, values, in_length, out, out_length, &u, &o);
    VASSERT(q.scale == scale, "quantizer unchanged");
#ifdef REFUSE
        VASSERT(err != EmlOk, "mismatched lengths refused");
        VASSERT(u == under && o == over, "no counts on error");
        for (int i = 0; i < N; i++) { VASSERT(out[i] == o0[i], "nothing written on error"); }
        VASSERT(eml_quantizer_forward_int16(&q, values, in_length, out, out_length) != EmlOk, "mismatched lengths refused");
        for (int i = 0; i < N; i++) { VASSERT(out[i] == o0[i], "nothing written on error"); }
        VH_REACH("refused");
#else
        VASSERT(err == EmlOk, "accepted");
        int wu = 0, wo = 0;
        for (int i = 0; i < N; i++) {
            const float s = v0[i] * scale;
            if (s < -32767.0f) { wu++; VASSERT(out[i] == -32767, "saturated low"); }
            else if (s > 32767.0f) { wo++; VASSERT(out[i] == 32767, "saturated high"); }
            else { VASSERT(out[i] == (int16_t)s, "truncated"); }
        }
        VASSERT(u == wu && o == wo, "saturations counted on each side");
        VH_REACH("quantized");
#endif
    for (int i = 0; i < N; i++) { VASSERT(values[i] == v0[i], "input unchanged"); }
#elif MODE == 4
    /* many values: given, but for one; most of them saturate */
    VH_BUFFER(float, values, N); VH_BUFFER(int16_t, out, N); VH_BUFFER(float, back, N);
    for (int i = 0; i < N; i++) { values[i] = i % 16 == 0 ? (float)(i - N / 2) * 0.5f : i % 2 ? 40000.0f : -33000.0f; }
    VH_IN(float, any); VASSUME(any >= -50000.0f); VASSUME(any <= 50000.0f);
    values[ANY] = any;
    EmlQuantizer q = { 1.0f };
    int u = -5, o = -5, wu = 0, wo = 0;
    VASSERT(eml_quantizer_check_forward_int16(&q, values, N, out, N, &u, &o) == EmlOk, "accepted");
    for (int i = 0; i < N; i++) {
        if (values[i] < -32767.0f) { wu++; VASSERT(out[i] == -32767, "saturated low"); }
        else if (values[i] > 32767.0f) { wo++; VASSERT(out[i] == 32767, "saturated high"); }
        else { VASSERT(out[i] == (int32_t)values[i], "truncated"); }
    }
    VASSERT(u == wu && o == wo, "saturations counted on each side");
    VASSERT(eml_quantizer_inverse_int16(&q, out, N, back, N) == EmlOk, "accepted");
    for (int i = 0; i < N; i++) { VCLOSE(back[i], (float)out[i], 0.01, "inverse divides by the scale"); out[i] = 0; }
    VASSERT(eml_quantizer_forward_int16(&q, values, N, out, N) == EmlOk, "accepted");
    for (int i = 0; i < N; i++) { if (values[i] >= -32767.0f && values[i] <= 32767.0f) { VASSERT(out[i] == (int32_t)values[i], "truncated"); } }
    VH_REACH("quantized");
#elif MODE == 2
    VH_IN(float, scale); VH_ARRAY(float, values, N);
    VASSUME(scale > 0.0f);
    VH_BUFFER(int16_t, out, N); VH_BUFFER(int16_t, out2, N);
    EmlQuantizer q = { scale };
    int u, o;
    VASSERT(eml_quantizer_check_forward_int16(&q, values, N, out, N, &u, &o) == EmlOk, "accepted");
    VASSERT(eml_quantizer_forward_int16(&q, values, N, out2, N) == EmlOk, "accepted");
    int wu = 0, wo = 0;
    for (int i = 0; i < N; i++) {
        float s = values[i] * scale;
        if (s < -32767.0f) { s = -32767.0f; wu++; }
        if (s > 32767.0f) { s = 32767.0f; wo++; }
        const int32_t want = (int32_t)s;
        VASSERT(out[i] == want && out2[i] == want, "scaled, saturated and truncated");
    }
    VASSERT(u == wu && o == wo, "saturations counted on each side");
    VH_REACH("quantized");
#else
    const float scale = SCALE;
    VH_ARRAY(float, values, N);
    for (int i = 0; i < N; i++) { VASSUME(values[i] * SCALE <= 32767.0f && values[i] * SCALE >= -32767.0f); }
    VH_BUFFER(int16_t, out, N); VH_BUFFER(float, back, N);
    EmlQuantizer q = { scale };
    VASSERT(eml_quantizer_forward_int16(&q, values, N, out, N) == EmlOk, "accepted");
    VH_IN(int, wrong); VASSUME(wrong != N);
    for (int i = 0; i < N; i++) { back[i] = 12345.0f; }
    VASSERT(eml_quantizer_inverse_int16(&q, out, N, back, wrong) != EmlOk, "mismatched lengths refused");
    for (int i = 0; i < N; i++) { VASSERT(back[i] == 12345.0f, "nothing written on error"); }
    VASSERT(eml_quantizer_inverse_int16(&q, out, N, back, N) == EmlOk, "accepted");
    for (int i = 0; i < N; i++) {
        VCLOSE(back[i] * SCALE, (float)out[i], 0.01, "inverse divides by the scale");
        VCLOSE(back[i], values[i], 1.001 / SCALE, "inverse within one step");
    }
    VH_REACH("round trip");
#endif
}
