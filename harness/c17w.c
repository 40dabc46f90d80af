/* Nearest neighbours with many items or features: given training data, but one item at any distance of a range */
#include "vh.h"
#include <eml_neighbors.h>
static uint32_t ref_distance(const int16_t *a, const int16_t *b, int length)
{
    uint32_t d = 0;
    for (int i = 0; i < length; i++) { const int32_t x = (int32_t)a[i] - b[i]; d += (uint32_t)(x < 0 ? -x : x); }
    return d;
}
#ifndef VH_REPLAY
uint32_t vh_distance(const int16_t *a, const int16_t *b, int length) { return ref_distance(a, b, length); }
#endif
void harness(void)
{
    VH_BUFFER(int16_t, data, NI * NF); VH_BUFFER(int16_t, labels, NI); VH_BUFFER(int16_t, query, NF);
    VH_BUFFER(EmlNeighborsDistanceItem, distances, NI + SPARE);
    for (int f = 0; f < NF; f++) { query[f] = (int16_t)(f % 100); }
    /* every item differs from the query in one feature; distances 10, 13, 16... in a mixed order */
    for (int i = 0; i < NI; i++) {
        for (int f = 0; f < NF; f++) { data[i * NF + f] = (int16_t)(f % 100); }
        const int rank = (int)(((int64_t)i * STRIDE) % NI), at = (i * 7 + NF - 1) % NF;
        data[i * NF + at] = (int16_t)(at % 100 + (i % 2 ? 1 : -1) * (10 + 3 * rank));
        labels[i] = (int16_t)(LABEL(i));
    }
    VH_IN(int16_t, any); VASSUME(any >= 0 && any <= 3);
    const int own = (int)(((int64_t)SYM * STRIDE) % NI), at = (SYM * 7 + NF - 1) % NF;
    const int dist = 11 + 3 * NEAR + 3 * any;     /* between those of the others */
    data[SYM * NF + at] = (int16_t)(at % 100 + dist);
    for (int i = 0; i < SPARE; i++) { distances[NI + i].index = 0; distances[NI + i].distance = 0; }
    int votes[EML_NEIGHBORS_MAX_CLASSES] = {0};
    for (int i = 0; i < NI; i++) {
        const int rank = (int)(((int64_t)i * STRIDE) % NI);
        int closer = 0;
        if (i == SYM) {
            for (int r = 0; r < NI; r++) { if (r != own && 10 + 3 * r < dist) { closer++; } }
        } else {
            closer = rank - (own < rank ? 1 : 0) + (dist < 10 + 3 * rank ? 1 : 0);
        }
        if (closer < K) { votes[labels[i]]++; }
    }
    int best = 0;
    for (int c = 1; c < EML_NEIGHBORS_MAX_CLASSES; c++) { if (votes[c] > votes[best]) { best = c; } }
    EmlNeighborsModel model = { NF, NI, NI, data, labels, K };
    int16_t out = -1;
    VASSERT(eml_neighbors_predict(&model, query, NF, distances, NI + SPARE, &out) == EmlOk, "accepted");
    VASSERT(out == best, "plurality of the k nearest items");
    VASSERT(eml_neighbors_predict(&model, query, NF, distances, NI - 1, &out) != EmlOk, "too small distance buffer");
    for (int i = 0; i < NI; i++) { for (int f = 0; f < NF; f++) {
        const int rank = (int)(((int64_t)i * STRIDE) % NI), pos = (i * 7 + NF - 1) % NF;
        if (i != SYM && f != pos) { VASSERT(data[i * NF + f] == (int16_t)(f % 100), "data unchanged"); }
        if (i != SYM && f == pos) { VASSERT(data[i * NF + f] == (int16_t)(f % 100 + (i % 2 ? 1 : -1) * (10 + 3 * rank)), "data unchanged"); }
    } }
    VH_REACH("predicted");
}
