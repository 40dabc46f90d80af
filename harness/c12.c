/* Naive Bayes. MODE 1: generated model (gen.h), any sample; MODE 2: any model (safety); MODE 3: refusals; MODE 4: density of the standard score */
#include "vh.h"
#include <eml_common.h>
#include <eml_bayes.h>
#if MODE == 1
#include "gen.h"
#endif
#if MODE == 1
/* the log density of one feature in Q16, with its error: a lemma for the sums below, if the code computes it this way */
static void lemma(float x, const double *ref)
{
    const eml_q16_t mean = EML_Q16_FROMFLOAT(ref[0]), std = EML_Q16_FROMFLOAT(ref[3]), l = EML_Q16_FROMFLOAT(ref[2]);
    const eml_q16_t val = EML_Q16_FROMFLOAT(x);
    const eml_q16_t xm = eml_q16_div(val - mean, std);
    const int64_t z = xm > 0 ? xm : -(int64_t)xm;
    const eml_q16_t a = EML_Q16_FROMFLOAT(-0.7213475204444817), b = EML_Q16_FROMFLOAT(-1.0005845727355313e-15), c = EML_Q16_FROMFLOAT(-1.3257480647361592);
    const int64_t axx = eml_q16_mul(a, eml_q16_mul(z, z));
    const int64_t bx = eml_q16_mul(b, z);
    const int64_t y = axx + bx + c;
    const int64_t t = y - l;
    const double e = (x - ref[0]) * ref[1];
    const double exact = -0.72134752044448170368 * e * e - 1.32574806473615899 - ref[2], err = (e * e + 2.0) * 0.0125;
    VASSERT(t - exact * 65536.0 <= err * 65536.0, "fixed-point error");
    VASSERT(exact * 65536.0 - t <= err * 65536.0, "fixed-point error");
}
#endif
void harness(void)
{
#if MODE == 1
    /* REF[class][feature] = { mean, 1/std, log2(std), std } */
#ifdef FREE
    /* many features or classes: any value for one feature, given ones for the others */
    VH_BUFFER(float, x, NF);
    for (int f = 0; f < NF; f++) { x[f] = SAMPLE[f]; }
    VH_IN(float, any); VASSUME(any >= LO); VASSUME(any <= HI); x[FREE] = any;
#else
    VH_ARRAY(float, x, NF);
    for (int f = 0; f < NF; f++) { VASSUME(x[f] >= LO); VASSUME(x[f] <= HI); }
#endif
#if NF > 1 && !defined(FREE)
    for (int c = 0; c < NC; c++) { for (int f = 0; f < NF; f++) { lemma(x[f], REF[c][f]); } }
#endif
    const int32_t got = nb_predict(x, NF);
    VASSERT(got >= 0 && got < NC, "a class");
    if (!(got >= 0 && got < NC)) { return; }
    double like[NC], err[NC];
    for (int c = 0; c < NC; c++) {
        like[c] = 0.0; err[c] = 0.0;
        for (int f = 0; f < NF; f++) {
            const double z = (x[f] - REF[c][f][0]) * REF[c][f][1];
            like[c] += -0.72134752044448170368 * z * z - 1.32574806473615899 - REF[c][f][2];
            /* relative error of the fixed-point square and of the parameters */
            err[c] += (z * z + 2.0) * 0.0125;
        }
    }
    for (int c = 0; c < NC; c++) {
        if (c != got) { VASSERT(like[c] - like[got] <= err[c] + err[got], "no other class is clearly more likely"); }
        bool same = c < got;
        for (int f = 0; f < NF; f++) { for (int k = 0; k < 4; k++) { same = same && REF[c][f][k] == REF[got][f][k]; } }
        VASSERT(!same, "lowest class on ties");
    }
#ifdef FREE
    VH_REACH("predicted");
#else
    if (got == 0) { VH_REACH("first"); }
    if (got == NC - 1) { VH_REACH("last"); }
#endif
#elif MODE == 2
    EmlBayesSummary *s = (EmlBayesSummary *)malloc(sizeof(EmlBayesSummary) * NC * NF);
    VASSUME(s != NULL);
    VH_ARRAY(float, x, NF);
    float x0[NF]; EmlBayesSummary s0[NC * NF];
    for (int f = 0; f < NF; f++) { VASSUME(x[f] > -16384.0f); VASSUME(x[f] < 16384.0f); x0[f] = x[f]; }
    for (int i = 0; i < NC * NF; i++) {
        if (i >= NF) { s[i] = s[i % NF]; s0[i] = s[i]; continue; }
        VH_IN(int32_t, mean); VH_IN(int32_t, std); VH_IN(int32_t, l);
        VASSUME(mean > -(1 << 30)); VASSUME(mean < (1 << 30)); VASSUME(std >= 1); VASSUME(l >= -16 * 65536); VASSUME(l <= 15 * 65536);
        /* the standard score fits */
        const float v = x[i % NF] * 65536.0f - (float)mean;
        VASSUME(v < 32766.0f * std); VASSUME(-v < 32766.0f * std);
        s[i].mean = mean; s[i].std = std; s[i].stdlog2 = l; s0[i] = s[i];
    }
    EmlBayesModel m = { NC, NF, s };
    const int32_t got = eml_bayes_predict(&m, x, NF);
    VASSERT(got == 0, "lowest class on ties");
    for (int f = 0; f < NF; f++) { VASSERT(x[f] == x0[f], "sample unchanged"); }
    for (int i = 0; i < NC * NF; i++) { VASSERT(s[i].mean == s0[i].mean && s[i].std == s0[i].std && s[i].stdlog2 == s0[i].stdlog2, "model unchanged"); }
    VH_REACH("predicted");
#elif MODE == 3
    EmlBayesSummary s[4] = { { 0, 65536, 0 }, { 65536, 65536, 0 }, { 0, 65536, 0 }, { 65536, 65536, 0 } };
    const float x[2] = { 0.0f, 1.0f };
    VH_IN(int32_t, classes); VH_IN(int32_t, features); VH_IN(int32_t, length); VH_IN(bool, nomodel); VH_IN(bool, novalues);
    EmlBayesModel m = { classes, features, s };
    VASSUME(nomodel || novalues || classes < 2 || features != length);
    const int32_t got = eml_bayes_predict(nomodel ? NULL : &m, novalues ? NULL : x, length);
    VASSERT(got < 0, "refused");
    VH_REACH("refused");
#elif MODE == 4
    /* two classes with unit deviation around 0 and at mean d: the nearer mean wins unless the squares are within the error */
    VH_IN(float, x); VH_IN(int32_t, d);
    VASSUME(x >= -100.0f); VASSUME(x <= 100.0f); VASSUME(d >= 1); VASSUME(d <= 100);
    EmlBayesSummary s[2] = { { 0, 65536, 0 }, { 0, 65536, 0 } };
    s[1].mean = d * 65536;
    EmlBayesModel m = { 2, 1, s };
    const int32_t got = eml_bayes_predict(&m, &x, 1);
    const float a = x * x, b = (x - d) * (x - d);
    if (a * 1.02f + 0.05f < b) { VASSERT(got == 0, "nearer mean"); VH_REACH("first"); }
    if (b * 1.02f + 0.05f < a) { VASSERT(got == 1, "nearer mean"); VH_REACH("second"); }
#endif
}
