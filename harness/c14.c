/* Gaussian mixture. MODE 1: any full covariance model; MODE 2: refusals; MODE 3: generated code (gen.h); MODE 4: many components or features, given numbers but for one of the sample */
#include "vh.h"
#include <math.h>
#include <eml_mixture.h>
#if MODE == 3
#include "gen.h"
#endif
#define LOG2PI 1.83787706640934548356
void harness(void)
{
#if MODE == 1
    VH_ARRAY(float, x, NF); VH_ARRAY(float, means, NC * NF); VH_ARRAY(float, prec, NC * NF * NF); VH_ARRAY(float, dets, NC); VH_ARRAY(float, weights, NC);
    EmlMixtureModel m = { NC, NF, EmlCovarianceFull, means, prec, dets, weights };
    float x0[NF], m0[NC * NF], p0[NC * NF * NF], d0[NC], w0[NC];
    for (int i = 0; i < NF; i++) { x0[i] = x[i]; }
    for (int i = 0; i < NC * NF; i++) { m0[i] = means[i]; }
    for (int i = 0; i < NC * NF * NF; i++) { p0[i] = prec[i]; }
    for (int i = 0; i < NC; i++) { d0[i] = dets[i]; w0[i] = weights[i]; }
    VH_BUFFER(float, lp, NC); VH_BUFFER(float, lp2, NC); VH_BUFFER(float, lp3, NC); VH_BUFFER(float, resp, NC);
    VASSERT(eml_mixture_precisions_length(&m) == NC * NF * NF, "precisions length");
    VASSERT(eml_mixture_predict_log_proba(&m, x, NF, lp) == EmlOk, "accepted");
    float want[NC];
    for (int c = 0; c < NC; c++) {
        float sum = 0.0f;
        for (int f = 0; f < NF; f++) {
            float y = 0.0f;
            for (int p = 0; p < NF; p++) { y += (x0[p] - m0[c * NF + p]) * p0[c * NF * NF + p * NF + f]; }
            sum += y * y;
        }
        want[c] = -0.5f * sum + d0[c] + w0[c];
        VCLOSE(lp[c], want[c] - 0.5 * NF * LOG2PI, 1e-6 * NF, "log-probability of the component");
    }
#ifdef SCORE
    float score = 77.0f, score2 = 78.0f;
    VASSERT(eml_mixture_score(&m, x, NF, lp2, &score) == EmlOk, "accepted");
    VASSERT(eml_mixture_predict_proba(&m, x, NF, lp3, &score2, resp) == EmlOk, "accepted");
    float max = lp[0];
    for (int c = 1; c < NC; c++) { if (lp[c] > max) { max = lp[c]; } }
    float sum = 0.0f;
    for (int c = 0; c < NC; c++) { sum += expf(lp[c] - max); }
    const float lse = logf(sum) + max;
    VASSERT(score == lse, "score is the log-sum-exp of the log-probabilities");
    VASSERT(score2 == lse, "score is the log-sum-exp of the log-probabilities");
    for (int c = 0; c < NC; c++) {
        VASSERT(lp2[c] == lp[c] && lp3[c] == lp[c], "log-probabilities");
        VASSERT(resp[c] == expf(lp[c] - lse), "responsibility");
    }
#endif
    for (int i = 0; i < NF; i++) { VASSERT(x[i] == x0[i], "sample unchanged"); }
    for (int i = 0; i < NC * NF; i++) { VASSERT(means[i] == m0[i], "means unchanged"); }
    for (int i = 0; i < NC * NF * NF; i++) { VASSERT(prec[i] == p0[i], "precisions unchanged"); }
    for (int i = 0; i < NC; i++) { VASSERT(dets[i] == d0[i] && weights[i] == w0[i], "model unchanged"); }
    VH_REACH("computed");
#elif MODE == 4
    VH_BUFFER(float, x, NF); VH_BUFFER(float, means, NC * NF); VH_BUFFER(float, prec, NC * NF * NF); VH_BUFFER(float, dets, NC); VH_BUFFER(float, weights, NC); VH_BUFFER(float, lp, NC);
    for (int f = 0; f < NF; f++) { x[f] = (float)(f % 5) - 2.0f; }
    VH_IN(float, any); VASSUME(any >= -50.0f); VASSUME(any <= 50.0f);
    x[NF - 1] = any;
    for (int c = 0; c < NC; c++) {
        dets[c] = (float)(c % 7); weights[c] = -(float)(c % 11);
        for (int f = 0; f < NF; f++) {
            means[c * NF + f] = (float)((c + f) % 3);
            for (int p = 0; p < NF; p++) { prec[c * NF * NF + f * NF + p] = p == f ? 0.5f : p == 0 && f % 16 == 3 ? 0.25f : p == NF - 1 && f == 1 ? -0.125f : 0.0f; }
        }
    }
    EmlMixtureModel m = { NC, NF, EmlCovarianceFull, means, prec, dets, weights };
    VASSERT(eml_mixture_predict_log_proba(&m, x, NF, lp) == EmlOk, "accepted");
    for (int c = 0; c < NC; c++) {
        double sum = 0.0, first = 0.0;
        for (int f = 0; f < NF; f++) { if (f % 16 == 3) { first += ((double)x[f] - (c + f) % 3) * 0.25; } }
        for (int f = 0; f < NF; f++) {
            double y = ((double)x[f] - (c + f) % 3) * 0.5;
            if (f == 0) { y += first; }
            if (f == NF - 1 && NF > 2) { y += ((double)x[1] - (c + 1) % 3) * -0.125; }
            sum += y * y;
        }
        VCLOSE(lp[c], -0.5 * sum + c % 7 - c % 11 - 0.5 * NF * LOG2PI, 1e-5 * NF, "log-probability of the component");
    }
    VH_REACH("computed");
#elif MODE == 2
    /* the smallest arrays for the covariance type */
    const float x[2] = { 1.0f, 2.0f }, means[4] = { 0 }, dets[2] = { 0 }, weights[2] = { 0 };
    VH_BUFFER(float, prec, 8);
    for (int i = 0; i < 8; i++) { prec[i] = 1.0f; }
    VH_BUFFER(float, lp, 2); VH_BUFFER(float, resp, 2);
    VH_IN(int32_t, components); VH_IN(int32_t, length); VH_IN(int32_t, type); VH_IN(bool, nomodel); VH_IN(bool, novalues);
    VASSUME(components <= 2); VASSUME(type >= 0); VASSUME(type <= 3);
    int t = 0; while (t < type) { t++; }
    EmlMixtureModel m = { components, 2, (EmlCovarianceType)t, means, prec, dets, weights };
    const bool bad = nomodel || novalues || components <= 0 || length != 2 || t != EmlCovarianceFull;
    VASSUME(bad);
    float score = 5.0f;
    for (int i = 0; i < 2; i++) { lp[i] = 3.0f; resp[i] = 4.0f; }
    EmlMixtureModel *pm = nomodel ? NULL : &m;
    const float *px = novalues ? NULL : x;
    VASSERT(eml_mixture_predict_log_proba(pm, px, length, lp) != EmlOk, "refused");
    VASSERT(eml_mixture_score(pm, px, length, lp, &score) != EmlOk, "refused");
    VASSERT(eml_mixture_predict_proba(pm, px, length, lp, &score, resp) != EmlOk, "refused");
    VASSERT(score == 5.0f && resp[0] == 4.0f && resp[1] == 4.0f, "no result on error");
    VH_REACH("refused");
#else
    VH_ARRAY(float, x, NF);
    for (int i = 0; i < NF; i++) { VASSUME(x[i] >= -10.0f); VASSUME(x[i] <= 10.0f); }
    VH_BUFFER(float, lp, NC);
    VASSERT(gmm_predict_log_proba(x, NF, lp) == EmlOk, "accepted");
    for (int c = 0; c < NC; c++) {
        double q = 0.0;
        for (int i = 0; i < NF; i++) { for (int j = 0; j < NF; j++) { q += (x[i] - REF_MEANS[c][i]) * REF_PREC[c][i][j] * (x[j] - REF_MEANS[c][j]); } }
        VCLOSE(lp[c], REF_CONST[c] - 0.5 * q, TOL, "log-probability of the trained component");
    }
    VASSERT(gmm_predict_log_proba(x, NF + 1, lp) != EmlOk, "another number of features is refused");
    VH_REACH("computed");
#endif
}
