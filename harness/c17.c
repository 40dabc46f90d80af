/* Nearest neighbours prediction. The Euclidean distance itself is decided by C18; here the items differ from the query in at most
 * one coordinate, so that the distance is a plain absolute difference, and under CBMC that is what is used for it. */
#include "vh.h"
#include <eml_neighbors.h>

#ifndef N
#define N 3
#endif
#ifndef NI
#define NI N
#endif
#ifndef NF
#define NF 2
#endif
#ifndef LABELS
#define LABELS 3
#endif

static uint32_t ref_distance(const int16_t *a, const int16_t *b, int length)
{
    uint32_t d = 0;
    for (int i = 0; i < length; i++) { const int32_t x = (int32_t)a[i] - b[i]; d += (uint32_t)(x < 0 ? -x : x); }
    return d;
}
#ifndef VH_REPLAY
uint32_t vh_distance(const int16_t *a, const int16_t *b, int length) { return ref_distance(a, b, length); }
#endif

void harness(void)
{
    VH_ARRAY(int16_t, data, N * NF);
    VH_ARRAY(int16_t, labels, N);
    VH_ARRAY(int16_t, query, NF);
    VH_IN(uint8_t, coord); VASSUME(coord < NF);
    for (int i = 0; i < N; i++) { for (int f = 0; f < NF; f++) { VASSUME(f == coord || data[i * NF + f] == query[f]); } }
    const int n_items = NI;
    EmlNeighborsModel model = { NF, n_items, N, data, labels, 0 };
    int16_t data0[N * NF], labels0[N], query0[NF];
    memcpy(data0, data, sizeof(data0)); memcpy(labels0, labels, sizeof(labels0)); memcpy(query0, query, sizeof(query0));

#ifdef REJECT
    VH_IN(int16_t, k); VH_IN(int, length); VH_IN(int, dlen);
    VASSUME(k >= 0);
    model.k_neighbors = k;
    VASSUME(dlen <= N);
    VH_BUFFER(EmlNeighborsDistanceItem, distances, (dlen < 0 ? 0 : dlen));
    int16_t out = 1234;
    const EmlError err = eml_neighbors_predict(&model, query, length, distances, dlen, &out);
    if (length != NF || dlen < n_items || k > n_items) {
        VASSERT(err != EmlOk, "bad sizes rejected");
        VASSERT(out == 1234, "result unwritten on error");
        VH_REACH("rejected");
    } else if (err != EmlOk) {
        VASSERT(out == 1234, "result unwritten on error");
        VH_REACH("label-rejected");
    } else {
        VH_REACH("accepted");
    }
#else
    VH_IN(uint8_t, k); VASSUME(k >= 1 && k <= n_items);
    model.k_neighbors = k;
#ifndef ANYLABEL
    for (int i = 0; i < N; i++) { VASSUME(labels[i] >= 0 && labels[i] < LABELS); }
#endif
    VH_BUFFER(EmlNeighborsDistanceItem, distances, n_items);
    int16_t out = 1234;
    const EmlError err = eml_neighbors_predict(&model, query, NF, distances, n_items, &out);

    /* reference: there is a choice of k items, no other being closer, of which out is the plurality */
    uint32_t dist[N];
    for (int i = 0; i < n_items; i++) { dist[i] = ref_distance(query, data + i * NF, NF); }
    bool possible = false, bad_possible = false;
    for (int set = 1; set < (1 << N); set++) {
        int size = 0; bool nearest = true;
        int votes[EML_NEIGHBORS_MAX_CLASSES] = {0};
        bool bad = false;
        for (int i = 0; i < N; i++) {
            if (!((set >> i) & 1)) { continue; }
            size++;
            if (i >= n_items) { nearest = false; continue; }
            if (labels0[i] < 0 || labels0[i] >= EML_NEIGHBORS_MAX_CLASSES) { bad = true; } else { votes[labels0[i]]++; }
            for (int j = 0; j < n_items; j++) { if (!((set >> j) & 1) && dist[j] < dist[i]) { nearest = false; } }
        }
        if (size != k || !nearest) { continue; }
        if (bad) { bad_possible = true; continue; }
        int best = 0;
        for (int c = 1; c < EML_NEIGHBORS_MAX_CLASSES; c++) { if (votes[c] > votes[best]) { best = c; } }
        if (out == best) { possible = true; }
    }
    if (err == EmlOk) {
        VASSERT(possible, "plurality of k nearest items");
        VH_REACH("predicted");
    } else {
        VASSERT(bad_possible, "error only for an unsupported label among the k nearest");
        VASSERT(out == 1234, "result unwritten on error");
#ifdef ANYLABEL
        VH_REACH("unsupported-label");
#endif
    }
#endif
    VASSERT(memcmp(data0, data, sizeof(data0)) == 0 && memcmp(labels0, labels, sizeof(labels0)) == 0 && memcmp(query0, query, sizeof(query0)) == 0, "model and query unchanged");
    VASSERT(model.n_items == n_items && model.n_features == NF && model.max_items == N, "model unchanged");
}
