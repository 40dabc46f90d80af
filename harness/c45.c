/* The program around a mixture model: gen.h is its source, with main, printf and strtod given other names. */
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#ifndef LO
#define LO -50.0f
#define HI 50.0f
#endif
#define MOST (2 * (NC + NF) + 20)
#define CAPACITY MOST
#define VH_STREAM vh_stdout_mark
#include "vhprint.h"
static double given[NF + 1];
static double vh_strtod(const char *s, char **end)
{
    if (end) { *end = (char *)s + 1; }
    return given[s[0] - 1];
}
#undef atof
#define strtod vh_strtod
#define strtof (float)vh_strtod
#define atof(s) vh_strtod(s, NULL)
#define main vh_main
#include "gen.h"
#undef main
void harness(void)
{
    static char texts[NF + 2][2];
    for (int i = 0; i < NF + 2; i++) { texts[i][0] = (char)(1 + i); }
    const char *argv[NF + 3];
    VH_IN(uint8_t, args); VASSUME(args <= NF + 1);
    argv[0] = "program";
    for (int i = 0; i < NF + 1; i++) { argv[1 + i] = texts[i]; }
    for (int i = 0; i < NF; i++) { VH_IN(float, x); VASSUME(x > LO && x < HI); given[i] = x; }
    given[NF] = 0;
    if (args != NF) {
        VASSERT(vh_main(args + 1, argv) != 0, "a wrong number of features is an error");
        VASSERT(n_out == 0, "and prints nothing");
        VH_REACH("refused");
        return;
    }
    float x[NF], log_prob[NC], resp[NC], score = 0;
    for (int i = 0; i < NF; i++) { x[i] = (float)given[i]; }
#if OUTPUT == 1
    VASSERT(gmm_score(x, NF, log_prob, &score) == EmlOk, "scored");
    const float *expected = &score; const int count = 1;
#elif OUTPUT == 2
    VASSERT(gmm_score(x, NF, log_prob, &score) == EmlOk, "scored");
    const float *expected = log_prob; const int count = NC;
#else
    VASSERT(gmm_predict_proba(x, NF, log_prob, &score, resp) == EmlOk, "scored");
    const float *expected = resp; const int count = NC;
#endif
    VASSERT(vh_main(NF + 1, argv) == 0, "the program succeeds");
    VASSERT(!other_stream, "to the standard output");
#ifdef TAIL
    /* the caller reads this as well */
    if (n_out > 0 && out[n_out - 1].kind == 0 && out[n_out - 1].integer == '\n') { n_out--; }
#endif
    VASSERT(n_out == 2 * count - 1, "one number per output");
    for (int i = 0; i < n_out; i++) {
        if (i % 2) { VASSERT(out[i].kind == 0 && out[i].integer == ',', "numbers are separated by a comma"); continue; }
        VASSERT(out[i].kind == 2 && out[i].real == expected[i / 2], "the number printed is that of the model");
        VASSERT(out[i].digits >= (out[i].conversion == 'f' ? 6 : 8), "at least six decimals, or single precision");
    }
    VH_REACH("printed");
}
