#include "vh.h"
#include <eml_neighbors.h>
#ifdef THRESH
/* the threshold between partitioning and insertion sort is a tuning constant: lowered, so that short arrays are partitioned */
#undef Q_THRESH
#define Q_THRESH THRESH
#endif
void harness(void) {
    VH_BUFFER(EmlNeighborsDistanceItem, items, N);
    uint32_t orig[N + 1];
    for (int i = 0; i < N; i++) {
#ifdef PATTERN
        /* long arrays: given distances, but for one */
        uint32_t d = (uint32_t)(PATTERN);
        if (i == ANY) { VH_IN(uint32_t, any); VASSUME(any <= 4); d = FROM + any * STEP; }
#else
        VH_IN(uint32_t, d);
#endif
#ifdef MAXD
        VASSUME(d <= MAXD);
#endif
        items[i].index = i; items[i].distance = d; orig[i] = d;
    }
    const EmlError err = eml_neighbors_sort_distances(items, N);
    VASSERT(err == EmlOk, "sorted");
    bool seen[N + 1];
    for (int i = 0; i < N; i++) { seen[i] = false; }
    for (int i = 0; i < N; i++) {
        const int idx = items[i].index;
        VASSERT(idx >= 0 && idx < N, "an item of the array");
        if (idx >= 0 && idx < N) {
            VASSERT(!seen[idx], "every item once");
            VASSERT(items[i].distance == orig[idx], "item keeps its distance");
            seen[idx] = true;
        }
        if (i > 0) { VASSERT(items[i - 1].distance <= items[i].distance, "non-decreasing"); }
    }
    VH_REACH("sorted");
}
