#define VH_MEMCPY
#include "vh.h"
#include <eml_neighbors.h>
#ifndef CAP
#define CAP 4
#endif
#ifndef MAXNF
#define MAXNF 3
#endif
void harness(void) {
#ifdef CHECK
    VH_IN(uint16_t, nf); VH_IN(int16_t, max_items); VH_IN(int16_t, n_items);
    VH_IN(int32_t, dl); VH_IN(int16_t, ll); VH_IN(int16_t, xl);
    VASSUME(max_items >= 0 && n_items >= 0 && n_items <= max_items && dl >= 0 && ll >= 0 && xl >= 0);
    EmlNeighborsModel m = { nf, n_items, max_items, NULL, NULL, 1 };
    const int32_t product = max_items * nf; /* at most 32767*65535, fits */
    const bool enough = dl >= product && ll >= max_items && xl >= max_items;
    const EmlError err = eml_neighbors_check(&m, dl, ll, xl);
    VASSERT((err == EmlOk) == enough, "accepts exactly the sufficient buffers");
    if (enough) { VH_REACH("enough"); } else { VH_REACH("not-enough"); }
#else
    const int nf = NF, max_items = MAX;
#ifdef ITEMS
    /* a large model with given contents */
    const int n_items = ITEMS;
    VH_BUFFER(int16_t, data, max_items * nf);
    VH_BUFFER(int16_t, labels, max_items);
    for (int i = 0; i < max_items * nf; i++) { data[i] = (int16_t)((i * 31) % 30011); }
    for (int i = 0; i < max_items; i++) { labels[i] = (int16_t)(i % 1009); }
#else
    VH_IN(uint8_t, n_items); VASSUME(n_items <= max_items);
    VH_ARRAY(int16_t, data, max_items * nf);
    VH_ARRAY(int16_t, labels, max_items);
#endif
    VH_ARRAY(int16_t, values, nf);
    VH_IN(int16_t, label); VH_IN(int16_t, length); VH_IN(int16_t, k);
#ifdef ITEMS
    /* the last of the values is any, the others are known */
    for (int f = 0; f + 1 < nf; f++) { values[f] = (int16_t)(-1 - f); }
#endif
    int16_t d0[CAP * MAXNF], l0[CAP];
    for (int i = 0; i < max_items * nf; i++) { d0[i] = data[i]; }
    for (int i = 0; i < max_items; i++) { l0[i] = labels[i]; }
    EmlNeighborsModel m = { nf, n_items, max_items, data, labels, k };
    const EmlError err = eml_neighbors_add_item(&m, values, length, label);
    const bool ok = length == nf && n_items < max_items;
    VASSERT((err == EmlOk) == ok, "succeeds exactly when it fits");
    VASSERT(m.n_items == n_items + (ok ? 1 : 0), "item count");
    VASSERT(m.n_features == nf && m.max_items == max_items && m.data == data && m.labels == labels && m.k_neighbors == k, "other settings unchanged");
    for (int i = 0; i < max_items * nf; i++) {
        const int item = i / nf, f = i % nf;
        const int16_t want = (ok && item == n_items) ? values[f] : d0[i];
        VASSERT(data[i] == want || (ok && item > n_items), "values stored, existing ones unchanged");
    }
    for (int i = 0; i < max_items; i++) {
        const int16_t want = (ok && i == n_items) ? label : l0[i];
        VASSERT(labels[i] == want || (ok && i > n_items), "label stored, existing ones unchanged");
    }
    if (ok) {
#if MAX > 0 && (!defined(ITEMS) || ITEMS < MAX)
        VH_REACH("added");
#endif
    } else { VH_REACH("refused"); }
#endif
}
