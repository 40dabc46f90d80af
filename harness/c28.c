/* Array setup and element access. MODE 1: any dimensions and buffer length. 2: element access. 3: fill and sum. 4: element access
 * with huge dimensions */
#define VH_MEMCPY
#include "vh.h"
#include <eml_array.h>
#ifndef MODE
#define MODE 1
#endif
void harness(void)
{
#if MODE == 1
    /* the product of all dimensions, in 128 bits, against the buffer */
    VH_IN(int8_t, n_dims); VH_IN(int8_t, value_size); VH_IN(uint64_t, buffer_length);
    int32_t dims[EML_ARRAY_MAX_DIMS];
#ifdef DIM0
    VASSUME(n_dims == ND && value_size == VS);
    VH_IN(int32_t, free0); VH_IN(int32_t, free1);
    dims[0] = DIM0; dims[1] = DIM1; dims[2] = DIM2;
#else
    VH_IN(int32_t, d0); VH_IN(int32_t, d1); VH_IN(int32_t, d2);
    dims[0] = d0; dims[1] = d1; dims[2] = d2;
    VASSUME(d0 >= -2 && d0 <= 5 && d1 >= -2 && d1 <= 5 && d2 >= -2 && d2 <= 5);
#endif
    VASSUME(value_size >= 1);
    VASSUME(buffer_length <= (uint64_t)PTRDIFF_MAX); /* no buffer is larger */
    uint8_t some = 0;
    EmlArray a;
    const int before0 = dims[0], before1 = dims[1], before2 = dims[2];
    const EmlError err = eml_array_init_full(&a, n_dims, dims, value_size, &some, buffer_length);
    VASSERT(dims[0] == before0 && dims[1] == before1 && dims[2] == before2, "dimensions only read");
    if (err == EmlOk) {
        VASSERT(n_dims >= 1 && n_dims <= EML_ARRAY_MAX_DIMS, "accepted number of dimensions");
        unsigned __int128 need = (unsigned __int128)value_size;
        for (int d = 0; d < EML_ARRAY_MAX_DIMS; d++) {
            if (d < n_dims) {
                VASSERT(dims[d] >= 0, "accepted dimension is not negative");
                need *= (unsigned __int128)(uint32_t)dims[d];
                VASSERT(a.dims[d] == dims[d], "dimensions stored");
            }
        }
        VASSERT(need <= (unsigned __int128)buffer_length, "every element fits in the buffer");
        VASSERT(a.n_dims == n_dims && a.value_size == value_size && a.data == &some, "settings stored");
        VH_REACH("accepted");
    } else {
        VH_REACH("refused");
    }
#elif MODE == 2
    VH_IN(uint8_t, cols); VH_IN(uint8_t, rows); VH_IN(uint8_t, vs);
    VASSUME(cols >= 1 && cols <= MAXD && rows <= MAXD && vs >= 1 && vs <= 8);
    const size_t need = (size_t)cols * rows * vs;
    VH_BUFFER(uint8_t, buffer, need);
    int32_t dims[3] = { cols, rows, 0 };
    EmlArray a;
    VASSERT(eml_array_init_full(&a, 2, dims, vs, buffer, need) == EmlOk, "fitting array accepted");
    VASSERT(eml_array_storage_size(&a) == need, "storage size");
    VH_IN(int, c1); VH_IN(int, r1); VH_IN(int, c2); VH_IN(int, r2);
    uint8_t *p1 = (uint8_t *)eml_array_data_2d(&a, c1, r1);
    uint8_t *p2 = (uint8_t *)eml_array_data_2d(&a, c2, r2);
    const bool in1 = c1 >= 0 && c1 < cols && r1 >= 0 && r1 < rows;
    const bool in2 = c2 >= 0 && c2 < cols && r2 >= 0 && r2 < rows;
    VASSERT((p1 != NULL) == in1, "slot exactly for indices in range");
    if (in1) {
        VASSERT(p1 >= buffer && p1 + vs <= buffer + need, "slot inside the buffer");
        p1[0] = 1; p1[vs - 1] = 2;
        VH_REACH("in range");
    } else {
        VH_REACH("out of range");
    }
    if (in1 && in2 && (c1 != c2 || r1 != r2)) {
        VASSERT(p1 + vs <= p2 || p2 + vs <= p1, "distinct slots");
    }
    a.n_dims = 3;
    VASSERT(eml_array_data_2d(&a, 0, 0) == NULL, "not two-dimensional");
#elif MODE == 5
    /* sum (decided with reals: every partial sum of so few int16 is exact in single precision) */
    const int n = COLS * ROWS;
    VH_ARRAY(int16_t, buffer, n);
    int32_t dims[3] = { COLS, ROWS, 0 };
    EmlArray a;
    VASSERT(eml_array_init_full(&a, 2, dims, 2, (uint8_t *)buffer, 2 * n) == EmlOk, "fitting array accepted");
    float sum = 0.5f;
    VASSERT(eml_array_sum(&a, &sum) == EmlOk, "sum of what is supported");
    int32_t expect = 0;
    for (int i = 0; i < n; i++) { expect += buffer[i]; }
    VASSERT(sum == (float)expect, "sum of all elements");
    VH_REACH("sum");
#elif MODE == 3
#define LEN (COLS * ROWS + EXTRA)
    const int vs = VS, nd = ND;
    VH_ARRAY(int16_t, buffer, LEN);
    int16_t before[LEN];
    for (int i = 0; i < LEN; i++) { before[i] = buffer[i]; }
    int32_t dims[3] = { COLS, ROWS, 1 };
    EmlArray a;
    VASSERT(eml_array_init_full(&a, nd, dims, vs, (uint8_t *)buffer, sizeof(int16_t) * LEN) == EmlOk, "fitting array accepted");
    VH_IN(float, value);
    VASSUME(value > -32769.0f && value < 32768.0f);
    const bool ok = nd == 2 && vs == 2;
#ifdef SUM
    float sum = 0.5f;
    EmlError err = eml_array_sum(&a, &sum);
    VASSERT((err == EmlOk) == ok, "sum of what is supported");
    if (err != EmlOk) { VASSERT(sum == 0.5f, "no result on error"); }
    for (int i = 0; i < LEN; i++) { VASSERT(buffer[i] == before[i], "summing changes nothing"); }
    VH_REACH("sum");
    return;
#else
    EmlError err = eml_array_fill(&a, value);
    VASSERT((err == EmlOk) == ok, "fill of what is supported");
    for (int i = 0; i < LEN; i++) {
        VASSERT(buffer[i] == (ok && i < COLS * ROWS ? (int16_t)value : before[i]), "filling touches exactly all elements");
    }
    VH_REACH("filled");
#endif
#elif MODE == 4
    int32_t dims[3] = { COLS, ROWS, 0 };
    EmlArray a;
    static uint8_t one[1];
    uint8_t *base = one;
    VASSERT(eml_array_init_full(&a, 2, dims, VS, base, (size_t)COLS * (size_t)ROWS * VS) == EmlOk, "fitting array accepted");
    VASSERT(eml_array_init_full(&a, 2, dims, VS, base, (size_t)COLS * (size_t)ROWS * VS - 1) != EmlOk, "array one byte too large refused");
    VASSERT(eml_array_init_full(&a, 2, dims, VS, base, (size_t)COLS * (size_t)ROWS * VS) == EmlOk, "fitting array accepted");
    VASSERT(eml_array_storage_size(&a) == (size_t)COLS * (size_t)ROWS * VS, "storage size");
    VH_IN(int, c1); VH_IN(int, r1);
    uint8_t *p1 = (uint8_t *)eml_array_data_2d(&a, c1, r1);
    const bool in1 = c1 >= 0 && c1 < COLS && r1 >= 0 && r1 < ROWS;
    VASSERT((p1 != NULL) == in1, "slot exactly for indices in range");
    if (in1) {
        /* row major, elements of the value size: distinct and in bounds */
        VASSERT((size_t)(p1 - base) == ((size_t)r1 * COLS + (size_t)c1) * VS, "own slot");
        VH_REACH("in range");
    } else { VH_REACH("out of range"); }
#endif
}
