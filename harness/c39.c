/* The generated command line program, on any rows: stdin, stdout and the decimal conversions are stand-ins. */
#include "vh.h"
#include <errno.h>
#include <math.h>

static float vh_x[ROWS][COLS];
static int vh_row, vh_off;
#define VH_CELL 24
static FILE *vh_stdin_dummy(void) { static int d; return (FILE *)&d; }

static char vh_char(int row, int off)
{
    const int cell = off / (VH_CELL + 1), at = off % (VH_CELL + 1);
    if (cell >= COLS) { return 0; }
    if (at == VH_CELL) { return cell == COLS - 1 ? (row == ROWS - 1 ? 0 : '\n') : ','; }
    const int id = row * COLS + cell;
    /* a number as it may be written: -1.0000000000000000e+ID, of which the last part tells which one it is */
    if (at == VH_CELL - 1) { return (char)('0' + id % 10); }
    if (at == VH_CELL - 2) { return (char)('0' + id / 10 % 10); }
    if (at == VH_CELL - 3) { return (char)('0' + id / 100); }
    if (at == VH_CELL - 4) { return id % 2 ? '-' : '+'; }
    if (at == VH_CELL - 5) { return 'e'; }
    return at == 0 ? '-' : at == 1 ? '1' : at == 2 ? '.' : '0';
}
static char *vh_fgets(char *buf, int n, FILE *fp)
{
    VASSERT(fp == vh_stdin_dummy(), "reads the input");
    int k = 0;
    while (k < n - 1 && vh_row < ROWS) {
        const char c = vh_char(vh_row, vh_off);
        if (c == 0) { vh_row++; vh_off = 0; break; }
        buf[k++] = c;
        vh_off++;
        if (c == '\n') { vh_row++; vh_off = 0; break; }
    }
    if (k == 0) { return NULL; }
    buf[k] = 0;
    return buf;
}
static char *vh_end;
static float vh_number(const char *s)
{
    const char *head = "-1.0000000000000000e";
    int i = 0;
    while (head[i] && s[i] == head[i]) { i++; }
    VASSERT(!head[i] && (s[i] == '+' || s[i] == '-'), "a number is read where there is one, as it was written");
    s += i + 1;
    int id = 0;
    for (i = 0; i < 3; i++) {
        VASSERT(s[i] >= '0' && s[i] <= '9', "a number is read where there is one, as it was written");
        id = id * 10 + (s[i] - '0');
    }
    vh_end = (char *)s + 3;
    VASSERT(id < ROWS * COLS && *vh_end != '0', "a number is read where there is one");
    return vh_x[id / COLS][id % COLS];
}
static int vh_sscanf(const char *s, const char *fmt, float *out)
{
    VASSERT(fmt[0] == '%' && fmt[1] == 'f' && fmt[2] == 0, "a number is read");
    *out = vh_number(s);
    return 1;
}
static float vh_strtof(const char *s, char **end) { const float x = vh_number(s); if (end) { *end = vh_end; } return x; }

static int vh_in(char c, const char *set) { while (*set) { if (*set == c) { return 1; } set++; } return 0; }
static char *vh_strtok_r(char *s, const char *seps, char **save)
{
    if (!s) { s = *save; }
    if (!s) { return NULL; }
    while (*s && vh_in(*s, seps)) { s++; }
    if (!*s) { *save = NULL; return NULL; }
    char *t = s;
    while (*s && !vh_in(*s, seps)) { s++; }
    if (*s) { *s = 0; *save = s + 1; } else { *save = NULL; }
    return t;
}
static char *vh_save;
static char *vh_strtok(char *s, const char *seps) { return vh_strtok_r(s, seps, &vh_save); }

/* the output: what is printed, as numbers and characters */
#define VH_MAX 400
static int vh_n;
static char vh_kind[VH_MAX];        /* i: integer, f: number, or the character itself as c */
static long vh_int[VH_MAX];
static double vh_real[VH_MAX];
static void vh_put(char kind, long i, double d) { VASSERT(vh_n < VH_MAX, "output of the expected length"); vh_kind[vh_n] = kind; vh_int[vh_n] = i; vh_real[vh_n] = d; vh_n++; }
struct vh_arg { int real; long i; double d; const char *s; };
static long vh_asint(long i) { return i; }
static long vh_noint(double d) { return 0; }
static double vh_asreal(double d) { return d; }
static double vh_noreal(long i) { return 0.0; }
#define VH_A(x) { _Generic((x), float: 1, double: 1, default: 0), _Generic((x), float: vh_noint, double: vh_noint, default: vh_asint)(x), _Generic((x), float: vh_asreal, double: vh_asreal, default: vh_noreal)(x), NULL }
static int vh_printf(const char *fmt, int n, const struct vh_arg *a)
{
    int k = 0;
    for (; *fmt; fmt++) {
        if (*fmt != '%') { vh_put('c', *fmt, 0.0); continue; }
        fmt++;
        int prec = -1;
        if (*fmt == '.') { prec = 0; fmt++; while (*fmt >= '0' && *fmt <= '9') { prec = prec * 10 + (*fmt - '0'); fmt++; } }
        while (*fmt == 'l') { fmt++; }
        VASSERT(k < n, "an argument for each conversion");
        if (*fmt == 'd' || *fmt == 'i' || *fmt == 'u') {
            VASSERT(!a[k].real, "an integer is printed as one");
            vh_put('i', a[k].i, 0.0);
        } else {
            VASSERT(a[k].real, "a number is printed as one");
            VASSERT((*fmt == 'g' && prec >= 9) || (*fmt == 'e' && prec >= 8) || (*fmt == 'a' && prec < 0), "single precision numbers are printed with all their digits");
            vh_put('f', 0, a[k].d);
        }
        k++;
    }
    VASSERT(k == n, "a conversion for each argument");
    return 0;
}
#define VH_P1(f) vh_printf(f, 0, NULL)
#define VH_P2(f, a) do { const struct vh_arg vh_a[] = { VH_A(a) }; vh_printf(f, 1, vh_a); } while (0)
#define VH_P3(f, a, b) do { const struct vh_arg vh_a[] = { VH_A(a), VH_A(b) }; vh_printf(f, 2, vh_a); } while (0)
#define VH_P4(f, a, b, c) do { const struct vh_arg vh_a[] = { VH_A(a), VH_A(b), VH_A(c) }; vh_printf(f, 3, vh_a); } while (0)
#define VH_SEL(_1, _2, _3, _4, name, ...) name

#define fgets vh_fgets
#define sscanf vh_sscanf
#define strtof vh_strtof
#define strtod vh_strtof
#define atof vh_number
#define strtok vh_strtok
#define strtok_r vh_strtok_r
#define printf(...) VH_SEL(__VA_ARGS__, VH_P4, VH_P3, VH_P2, VH_P1, 0)(__VA_ARGS__)
#undef stdin
#define stdin vh_stdin_dummy()
#define main program_main
#include "program.c"
#undef main
#undef printf
/* stand-ins for the model's prediction: any function that tells the features apart would do */
int vh_bayes(void *model, const float *f, int n) { VASSERT(n == COLS, "number of features"); return (f[0] > 2.0f) + 2 * (f[COLS-1] > -3.5f); }
int vh_neighbors(void *model, const int16_t *f, int n, void *d, int m, int16_t *out)
{
    VASSERT(n == COLS, "number of features");
    *out = (int16_t)((f[0] > 2) + 2 * (f[COLS-1] > -3));
    return f[0] > 20000 ? 3 : 0;
}
#include "expect.h"

static int vh_at;
static void take_char(char c) { VASSERT(vh_at < vh_n && vh_kind[vh_at] == 'c' && vh_int[vh_at] == c, "lines of row number, (class,) answer"); vh_at++; }
static void take_int(long i) { VASSERT(vh_at < vh_n && vh_kind[vh_at] == 'i', "lines of row number, (class,) answer"); VASSERT(vh_int[vh_at] == i, "rows and classes in order"); vh_at++; }
static void take_real(double want)
{
    VASSERT(vh_at < vh_n && vh_kind[vh_at] != 'c', "lines of row number, (class,) answer");
    if (vh_kind[vh_at] == 'i') { VASSERT((double)vh_int[vh_at] == want, "the answer of the C code for the row"); }
    else { VASSERT(vh_real[vh_at] == want, "the answer of the C code for the row"); }
    vh_at++;
}

void harness(void)
{
    for (int r = 0; r < ROWS; r++) {
        for (int c = 0; c < COLS; c++) {
            VH_IN(float, x);
            VASSUME(x >= -BOUND && x <= BOUND);
            vh_x[r][c] = x;
        }
    }
    program_main();
    VASSERT(vh_row == ROWS, "all rows are read");
    for (int r = 0; r < ROWS; r++) {
#ifdef PROBA
        float want[CLASSES];
        for (int c = 0; c < CLASSES; c++) { want[c] = 0.0f; }
        expect(vh_x[r], want);
        for (int c = 0; c < CLASSES; c++) {
            take_int(r); take_char(','); take_int(c); take_char(','); take_real((double)want[c]); take_char('\n');
        }
#else
        const double want = expect(vh_x[r]);
        take_int(r); take_char(','); take_real(want); take_char('\n');
#endif
    }
    VASSERT(vh_at == vh_n, "nothing else is printed");
    VH_REACH("answered");
}
