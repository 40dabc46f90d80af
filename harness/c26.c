/* LONG: given text, but for one byte (Engine B). Otherwise the stream is an arbitrary sequence of SN bytes; reads may be short or fail, seeks may fail. */
#include "vh.h"
#include <eml_csv.h>
#ifndef SN
#define SN 5
#endif
#ifndef BN
#define BN 4
#endif
#ifndef CN
#define CN 3
#endif
static uint8_t *stream; static size_t pos; static size_t slen;
static bool read_failed, seek_failed, short_read;
static size_t last_read; static size_t last_pos;
int vh_read(void *ctx, uint8_t *buffer, size_t size)
{
#ifdef LONG
    const int mode = 127;
#else
    VH_IN(int8_t, mode);
#endif
    if (mode < 0) { read_failed = true; return mode; }
    size_t avail = pos < slen ? slen - pos : 0;
    size_t n = avail < size ? avail : size;
#ifdef SHORT
    if ((size_t)mode < n) { n = mode; short_read = true; }
#endif
    for (size_t i = 0; i < n; i++) { buffer[i] = stream[pos + i]; }
    last_read = n; last_pos = pos;
    pos += n;
    return (int)n;
}
int vh_seek(void *ctx, size_t position)
{
#ifdef LONG
    const int status = 0;
#else
    VH_IN(int8_t, status);
#endif
    if (status != 0) { seek_failed = true; return status; }
    pos = position;
    return 0;
}
/* checks columns against the line that starts at last_pos, as far as it was read */
static void check_columns(char *buffer, size_t blen, char **columns, int n, size_t ccap)
{
    VASSERT(n >= 0 && (size_t)n <= ccap, "column count within capacity");
    int col = 0; size_t start = 0; bool done = false;
    for (size_t i = 0; i < BN && i < last_read && !done; i++) {
        const uint8_t c = stream[last_pos + i];
        if (c == ',' || c == '\n') {
            if (col < n) {
                VASSERT(columns[col] == buffer + start, "column points at its field");
                for (size_t j = start; j < i; j++) { VASSERT((uint8_t)buffer[j] == stream[last_pos + j], "field text unchanged"); }
                VASSERT(buffer[i] == '\0', "field terminated");
            }
            col++; start = i + 1;
            if (c == '\n') { done = true; }
        }
    }
    VASSERT(n == col, "number of columns is the number of fields");
}
void harness(void)
{
#ifdef LONG
    VH_BUFFER(uint8_t, data, SN); stream = data; slen = SN;
    for (int i = 0; i < SN; i++) { data[i] = LONG ? ',' : i % FIRST == FIRST - 1 ? '\n' : (uint8_t)('0' + i % 10); }
    { VH_IN(uint8_t, any); data[ANY] = any; }
    const size_t start_ = START;
#else
    VH_ARRAY(uint8_t, data, SN); stream = data; slen = SN;
    VH_IN(uint8_t, start_); VASSUME(start_ <= SN);
#endif
    const size_t blen = BN, ccap = CN;
    VH_BUFFER(char, buffer, BN);
    VH_BUFFER(char *, columns, CN);
    EmlCsvReader r; memset(&r, 0, sizeof(r));
    r.read = vh_read; r.seek = vh_seek; r.stream = NULL;
#ifdef HEADER
    pos = 0;
    const EmlError err = eml_csv_reader_read_header(&r, buffer, blen, columns, ccap);
    if (read_failed || seek_failed) { VASSERT(err != EmlOk, "failing I/O is an error"); VH_REACH("io-error"); }
    if (err == EmlOk) {
        check_columns(buffer, blen, columns, (int)r.n_columns, ccap);
        /* next read starts right after the header line */
        size_t eol = 0; while (eol < last_read && stream[eol] != '\n') { eol++; }
        if (eol < last_read) {
            VASSERT(pos == eol + 1, "positioned at the first row");
            VASSERT(r.stream_location == eol + 1, "location of the first row");
            VH_REACH("header");
        }
    } else { VH_REACH("error"); }
#else
#ifdef LONG
    VH_IN(int16_t, expected); VASSUME(expected >= EXPECTED - 1 && expected <= EXPECTED + 2);
#else
    VH_IN(uint8_t, expected); VASSUME(expected <= CN + 1);
#endif
    r.n_columns = expected; r.stream_location = start_; pos = start_;
    const int n = eml_csv_reader_read_data(&r, buffer, blen, columns, ccap);
    if (read_failed || seek_failed) { VASSERT(n < 0, "failing I/O is an error"); VH_REACH("io-error"); }
    if (expected > ccap) { VASSERT(n < 0, "too small column array is an error"); VH_REACH("capacity"); }
    else if (!read_failed && !seek_failed) {
        if (n > 0) {
            check_columns(buffer, blen, columns, n, ccap);
            VASSERT(n == expected, "row has as many columns as the header");
            size_t eol = 0; while (eol < last_read && stream[last_pos + eol] != '\n') { eol++; }
            if (eol < last_read) {
                VASSERT(pos == start_ + eol + 1 && r.stream_location == start_ + eol + 1, "positioned at the next row");
                VH_REACH("row");
            }
        } else if (n == 0) {
            VASSERT(last_read == 0 || stream[last_pos] == '\n' || expected == 0, "end of data only when there is no more data, or at an empty line");
            VH_REACH("eof");
        } else {
            VH_REACH("row-error");
        }
        if (last_read == 0) { VASSERT(n == 0, "end of data is zero columns"); }
    }
#endif
}
