/* Row shift (OP 1) and row copy (OP 2) of two-dimensional arrays of concrete shape, symbolic contents and positions. */
#define VH_MEMCPY
#include "vh.h"
#include <eml_array.h>
#define ROW (COLS * VS)
#define LEN (ROW * ROWS + 1)
void harness(void)
{
#ifdef ANY
    /* large arrays: given values, but for one; positions around a few */
    VH_BUFFER(uint8_t, data, LEN);
    for (int i = 0; i < LEN; i++) { data[i] = (uint8_t)(i * 7 + i / 251); }
    { VH_IN(uint8_t, any); data[ANY] = any; }
#else
    VH_ARRAY(uint8_t, data, LEN);
#endif
    uint8_t before[LEN];
    for (int i = 0; i < LEN; i++) { before[i] = data[i]; }
    int32_t dims[3] = { COLS, ROWS, 0 };
    EmlArray a;
    VASSERT(eml_array_init_full(&a, 2, dims, VS, data, LEN) == EmlOk, "fitting array accepted");
#ifdef ANY
    const int8_t nd = 2;
#else
    VH_IN(int8_t, nd); VASSUME(nd >= 1 && nd <= 3);
#endif
    a.n_dims = nd;
#if OP == 1
    VH_IN(int, shift);
#ifdef ANY
    VASSUME(shift >= AT - 1 && shift <= AT + 1);
#endif
    const EmlError err = eml_array_shift_rows(&a, shift);
    const bool ok = nd == 2 && shift <= 0 && shift >= -ROWS;
    VASSERT((err == EmlOk) == ok, "error exactly for impossible shifts");
    const int n = ok ? -shift : 0;
    for (int i = 0; i < LEN; i++) {
        const int row = i / ROW;
        if (i < ROW * ROWS && row < ROWS - n) {
            VASSERT(data[i] == before[i + n * ROW], "row is the former row further down");
        } else if (!ok || i >= ROW * ROWS) {
            VASSERT(data[i] == before[i], "nothing else changed");
        }
    }
    if (ok) { VH_REACH("shifted"); } else { VH_REACH("refused"); }
#else
    /* the other array */
#define LEN2 (COLS2 * VS2 * ROWS2 + 1)
#ifdef ANY
    VH_BUFFER(uint8_t, data2, LEN2);
    for (int i = 0; i < LEN2; i++) { data2[i] = (uint8_t)(i * 11 + i / 241); }
    { VH_IN(uint8_t, any2); data2[ANY % LEN2] = any2; }
#else
    VH_ARRAY(uint8_t, data2, LEN2);
#endif
    uint8_t before2[LEN2];
    for (int i = 0; i < LEN2; i++) { before2[i] = data2[i]; }
    int32_t dims2[3] = { COLS2, ROWS2, 0 };
    EmlArray b;
    VASSERT(eml_array_init_full(&b, 2, dims2, VS2, data2, LEN2) == EmlOk, "fitting array accepted");
#ifdef ANY
    const int8_t nd2 = 2;
#else
    VH_IN(int8_t, nd2); VASSUME(nd2 >= 1 && nd2 <= 3);
#endif
    b.n_dims = nd2;
    VH_IN(int, start);
#ifdef ANY
    VASSUME(start >= AT - 1 && start <= AT + 1);
#endif
    const EmlError err = eml_array_copy_rows(&a, start, &b);
    const bool ok = nd == 2 && nd2 == 2 && COLS == COLS2 && VS == VS2 && start >= 0 && (int64_t)start + ROWS2 <= ROWS;
    VASSERT((err == EmlOk) == ok, "error exactly for impossible copies");
    for (int i = 0; i < LEN; i++) {
        const int row = i / ROW;
        if (ok && i < ROW * ROWS && row >= start && row < start + ROWS2) {
            VASSERT(data[i] == before2[i - start * ROW], "row copied");
        } else {
            VASSERT(data[i] == before[i], "nothing else changed");
        }
    }
    for (int i = 0; i < LEN2; i++) { VASSERT(data2[i] == before2[i], "source unchanged"); }
#if COLS == COLS2 && VS == VS2 && ROWS2 <= ROWS
    if (ok) { VH_REACH("copied"); }
#endif
    if (!ok) { VH_REACH("refused"); }
    VASSERT(b.n_dims == nd2 && b.dims[0] == COLS2 && b.dims[1] == ROWS2 && b.value_size == VS2 && b.data == data2, "other array description unchanged");
#endif
    VASSERT(a.n_dims == nd && a.dims[0] == COLS && a.dims[1] == ROWS && a.value_size == VS && a.data == data, "array description unchanged");
}
