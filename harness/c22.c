/* IIR filter */
#include "vh.h"
#include <eml_iir.h>
#ifndef MODE
#define MODE 1
#endif
void harness(void)
{
#if MODE == 1
    VH_ARRAY(float, coeff, 6 * STAGES);
    VH_BUFFER(float, states, 4 * STAGES);
    VH_BUFFER(float, states2, 4 * STAGES);
    float c0[6 * STAGES], z[2 * STAGES], z2[2 * STAGES];
    for (int s = 0; s < STAGES; s++) {
        coeff[6 * s + 3] = 1.0f;    /* normalised */
        VH_IN(float, za); VH_IN(float, zb);
        states[4 * s] = za; states[4 * s + 1] = za; states[4 * s + 2] = zb; states[4 * s + 3] = zb;
        z[2 * s] = za; z[2 * s + 1] = zb;
        VH_IN(float, zc); VH_IN(float, zd);
        states2[4 * s] = zc; states2[4 * s + 1] = zc; states2[4 * s + 2] = zd; states2[4 * s + 3] = zd;
        z2[2 * s] = zc; z2[2 * s + 1] = zd;
    }
    for (int i = 0; i < 6 * STAGES; i++) { c0[i] = coeff[i]; }
    EmlIIR f = { STAGES, states, 4 * STAGES, coeff, 6 * STAGES };
    EmlIIR f2 = { STAGES, states2, 4 * STAGES, coeff, 6 * STAGES };
    VASSERT(eml_iir_check(f) == EmlOk, "valid filter accepted");
    for (int t = 0; t < STEPS; t++) {
        VH_IN(float, in);
        /* two filters, used in turn */
        EmlIIR *use = (t % 3) == 1 ? &f2 : &f;
        float *zz = (t % 3) == 1 ? z2 : z;
        const float got = eml_iir_filter(*use, in);
        float x = in;
        for (int s = 0; s < STAGES; s++) {
            const float *b = c0 + 6 * s, *a = c0 + 6 * s + 3;
            const float y = b[0] * x + zz[2 * s];
            zz[2 * s] = b[1] * x - a[1] * y + zz[2 * s + 1];
            zz[2 * s + 1] = b[2] * x - a[2] * y;
            x = y;
        }
        VASSERT(got == x, "cascade of second order sections");
    }
    for (int s = 0; s < STAGES; s++) {
        VASSERT(states[4 * s + 1] == z[2 * s] && states[4 * s + 3] == z[2 * s + 1], "own state");
        VASSERT(states2[4 * s + 1] == z2[2 * s] && states2[4 * s + 3] == z2[2 * s + 1], "state of the other filter");
    }
    for (int i = 0; i < 6 * STAGES; i++) { VASSERT(coeff[i] == c0[i], "coefficients only read"); }
    VH_REACH("filtered");
#elif MODE == 3
    /* many stages: given coefficients, but for those of one stage; any input */
    VH_BUFFER(float, coeff, 6 * STAGES); VH_BUFFER(float, states, 4 * STAGES);
    double c0[6 * STAGES], z[2 * STAGES];
    for (int s = 0; s < STAGES; s++) {
        float c[6] = { 1.0f + (float)(s % 3) * 0.25f, (float)(s % 5) * 0.125f, s % 7 == 0 ? -0.5f : 0.0f, 1.0f, s % 4 == 1 ? 0.25f : 0.0f, s % 11 == 0 ? 0.125f : 0.0f };
        if (s % 3) { c[0] = 1.0f; }
        if (s % 16) { c[1] = 0.0f; c[2] = 0.0f; c[4] = 0.0f; c[5] = 0.0f; }
        if (s == ANY) { VH_IN(float, p); VH_IN(float, q); c[0] = p; c[1] = q; }
        for (int i = 0; i < 6; i++) { coeff[6 * s + i] = c[i]; c0[6 * s + i] = c[i]; }
        const float za = s % 8 == 0 ? (float)(s % 13) : 0.0f, zb = s % 8 == 4 ? 0.5f : 0.0f;
        states[4 * s] = za; states[4 * s + 1] = za; states[4 * s + 2] = zb; states[4 * s + 3] = zb;
        z[2 * s] = za; z[2 * s + 1] = zb;
    }
    EmlIIR f = { STAGES, states, 4 * STAGES, coeff, 6 * STAGES };
    VASSERT(eml_iir_check(f) == EmlOk, "valid filter accepted");
    for (int t = 0; t < STEPS; t++) {
        VH_IN(float, in); VASSUME(in >= -1.0f); VASSUME(in <= 1.0f);
        const float got = eml_iir_filter(f, in);
        double x = in;
        for (int s = 0; s < STAGES; s++) {
            const double *b = c0 + 6 * s, *a = c0 + 6 * s + 3, y = b[0] * x + z[2 * s];
            z[2 * s] = b[1] * x - a[1] * y + z[2 * s + 1];
            z[2 * s + 1] = b[2] * x - a[2] * y;
            x = y;
        }
#ifdef VH_LL
        VASSERT(got == x, "cascade of second order sections");
#else
        VCLOSE(got, x, 1e-3 * (1.0 + (x < 0 ? -x : x)), "cascade of second order sections");
#endif
    }
    VH_REACH("filtered");
#else
    VH_IN(int, n_stages); VH_IN(int, states_length); VH_IN(int, coefficients_length); VH_IN(bool, have_states); VH_IN(bool, have_coeff);
    float some[6];
    EmlIIR f = { n_stages, have_states ? some : NULL, states_length, have_coeff ? some : NULL, coefficients_length };
    const bool ok = n_stages >= 1 && have_states && have_coeff && (int64_t)states_length == 4 * (int64_t)n_stages && (int64_t)coefficients_length == 6 * (int64_t)n_stages;
    VASSERT((eml_iir_check(f) == EmlOk) == ok, "accepts exactly the complete filters");
    if (ok) { VH_REACH("accepted"); } else { VH_REACH("refused"); }
#endif
}
