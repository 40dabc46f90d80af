/* The text of a value is whatever snprintf produces: here an arbitrary text without separators, of arbitrary length. */
#include "vh.h"
#ifndef TL
#define TL 3 /* longest text that is really written */
#endif
#ifndef TEXTS
#define TEXTS 8
#endif
static char texts[TEXTS][24]; static int text_len[TEXTS]; static int n_texts;
static int vh_format(char *buf, size_t max, float value)
{
#ifdef NAMELEN
    const uint8_t kind = n_texts % 2;
#else
    VH_IN(uint8_t, kind);
#endif
    int len; const int no = n_texts++;
    if (kind < 128) { len = 1 + kind % TL; } else { len = (int)max - 1 + (kind - 128) % 3; } /* short, or around the limit */
    for (int i = 0; i < len && i < 23; i++) {
        char c;
#ifdef NAMELEN
        if (no > 0) { c = (char)('0' + (no * 3 + i) % 10); } else
#endif
        if (kind < 128) { VH_IN(char, ch); VASSUME(ch != ',' && ch != '\n' && ch != 0); c = ch; } else { c = '7'; }
        texts[no][i] = c;
        if ((size_t)i + 1 < max) { buf[i] = c; }
    }
    if (max > 0) { buf[(size_t)len < max ? (size_t)len : max - 1] = 0; }
    texts[no][len < 23 ? len : 23] = 0; text_len[no] = len;
    return len;
}
#define snprintf(buf, max, fmt, value) vh_format(buf, max, value)
#include <eml_csv.h>
#undef snprintf
#ifndef COLS
#define COLS 2
#endif
#ifndef ROWS
#define ROWS 1
#endif
#ifndef NAMELEN
#define NAMECAP 3
#else
#define NAMECAP (NAMELEN + 2)
#endif
#define CAPACITY (COLS * NAMECAP + ROWS * COLS * EML_CSV_FLOAT_MAXSIZE)
static uint8_t file_[CAPACITY]; static size_t len_, pos_;
int vh_write(void *ctx, const uint8_t *buffer, size_t size)
{
    for (size_t i = 0; i < size; i++) { VASSUME(len_ < CAPACITY); file_[len_++] = buffer[i]; }
    return (int)size;
}
int vh_read(void *ctx, uint8_t *buffer, size_t size)
{
    size_t n = 0;
    while (n < size && pos_ < len_) { buffer[n++] = file_[pos_++]; }
    return (int)n;
}
int vh_seek(void *ctx, size_t position) { pos_ = position; return 0; }
void harness(void)
{
    char names[COLS][NAMECAP]; const char *header[COLS];
#ifdef NAMELEN
    /* long names or many columns: given names, but for a character of the last one */
    for (int c = 0; c < COLS; c++) {
        for (int i = 0; i < NAMELEN; i++) { names[c][i] = (char)('a' + (c + i) % 26); }
        names[c][NAMELEN - (c % 2 && NAMELEN > 1)] = 0; header[c] = names[c];
    }
    VH_IN(char, ch); VASSUME(ch > ' ' && ch != ',' && ch < 127); names[COLS - 1][NAMELEN / 2] = ch;
#else
    for (int c = 0; c < COLS; c++) {
        VH_IN(uint8_t, l); VASSUME(l <= 2);
        for (int i = 0; i < 2; i++) { VH_IN(char, ch); VASSUME(ch != ',' && ch != '\n' && ch != 0); names[c][i] = ch; }
        names[c][l] = 0; header[c] = names[c];
    }
#endif
    EmlCsvWriter w; memset(&w, 0, sizeof(w)); w.write = vh_write; w.seek = vh_seek; w.stream = NULL;
    EmlError err = eml_csv_writer_write_header(&w, header, COLS);
    VASSERT(err == EmlOk, "header written");
    float values[COLS + 1] = {0};
#ifdef REFUSE
    VH_IN(uint8_t, count); VASSUME(count <= COLS + 1 && count != COLS);
    const size_t before = len_;
    err = eml_csv_writer_write_data(&w, values, count);
    VASSERT(err != EmlOk && len_ == before, "row with another number of values refused");
    VH_REACH("refused");
#else
    bool ok = true;
    for (int row = 0; row < ROWS && ok; row++) {
        err = eml_csv_writer_write_data(&w, values, COLS);
        if (err != EmlOk) { ok = false; }
    }
    if (!ok) {
        VASSERT(text_len[n_texts - 1] >= EML_CSV_FLOAT_MAXSIZE, "only a text that does not fit is refused");
        VH_REACH("text-too-long");
    } else {
        for (int i = 0; i < n_texts; i++) { VASSERT(text_len[i] < EML_CSV_FLOAT_MAXSIZE, "a text that does not fit is refused"); }
        VASSERT(n_texts == ROWS * COLS, "one text per value");
        EmlCsvReader r; memset(&r, 0, sizeof(r)); r.read = vh_read; r.seek = vh_seek; r.stream = NULL;
        VH_BUFFER(char, buffer, CAPACITY);
        VH_BUFFER(char *, columns, COLS);
        err = eml_csv_reader_read_header(&r, buffer, CAPACITY, columns, COLS);
#ifdef FULLCAP
#endif
        VASSERT(err == EmlOk, "header read back");
        VASSERT(r.n_columns == COLS, "number of columns read back");
        for (int c = 0; c < COLS; c++) { VASSERT(strcmp(columns[c], names[c]) == 0, "name read back"); }
        for (int row = 0; row < ROWS; row++) {
            const int n = eml_csv_reader_read_data(&r, buffer, CAPACITY, columns, COLS);
            VASSERT(n == COLS, "row read back");
            for (int c = 0; c < COLS; c++) { VASSERT(strcmp(columns[c], texts[row * COLS + c]) == 0, "value text read back"); }
        }
        const int n = eml_csv_reader_read_data(&r, buffer, CAPACITY, columns, COLS);
        VASSERT(n == 0, "then end of data");
        VH_REACH("roundtrip");
    }
#endif
}
