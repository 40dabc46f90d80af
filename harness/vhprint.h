/* Stand-ins for the printing functions of the C library: everything printed is recorded, with the types of the arguments. CAPACITY: most tokens recorded. */
#ifndef VHPRINT_H
#define VHPRINT_H
#include <stdio.h>
#include <stdint.h>
#include <stdbool.h>
/* kinds: 0 a character, 1 an integer, 2 a real number; digits: of a real number, conversion: its letter */
typedef struct { int kind; int64_t integer; double real; int digits; char conversion; } VhToken;
static VhToken out[CAPACITY]; static int n_out;
enum { INT = 1, REAL = 2, TEXT = 3, LONG = 4 };
static int arg_kind[8]; static int64_t arg_int[8]; static double arg_real[8]; static const char *arg_text[8]; static int n_args;
static bool other_stream;
static void emit(int kind, int64_t i, double f)
{
    VASSERT(n_out < CAPACITY, "output does not run away");
    out[n_out].kind = kind; out[n_out].integer = i; out[n_out].real = f; out[n_out].digits = 0; out[n_out].conversion = 0; n_out++;
}
static void vh_begin(void) { n_args = 0; }
static void vh_int(int64_t v) { arg_kind[n_args] = INT; arg_int[n_args++] = v; }
static void vh_long(int64_t v) { arg_kind[n_args] = LONG; arg_int[n_args++] = v; }
static void vh_real(double v) { arg_kind[n_args] = REAL; arg_real[n_args++] = v; }
static void vh_text(const char *v) { arg_kind[n_args] = TEXT; arg_text[n_args++] = v; }
static int vh_puts(const char *s) { for (; *s; s++) { emit(0, *s, 0); } return 1; }
static int vh_putc(int c) { emit(0, (char)c, 0); return (unsigned char)c; }
static int vh_print(const char *f)
{
    int a = 0;
    while (*f) {
        if (*f != '%') { emit(0, *f++, 0); continue; }
        f++;
        while (*f == '-' || *f == '+' || *f == '0') { f++; }
        while (*f >= '0' && *f <= '9') { f++; }
        int digits = 6;
        if (*f == '.') { f++; digits = 0; while (*f >= '0' && *f <= '9') { digits = 10 * digits + *f++ - '0'; } }
        bool is_long = false;
        while (*f == 'l' || *f == 'z') { is_long = true; f++; }
        const char c = *f++;
        if (c == '%') { emit(0, '%', 0); continue; }
        VASSERT(a < n_args, "every conversion has an argument");
        if (c == 'd' || c == 'i' || c == 'u') {
            VASSERT(arg_kind[a] == (is_long ? LONG : INT), "an argument has the type that its conversion needs (integer)");
            emit(1, arg_int[a], 0);
        } else if (c == 'c') {
            VASSERT(arg_kind[a] == INT, "an argument has the type that its conversion needs (character)");
            emit(0, (char)arg_int[a], 0);
        } else if (c == 'f' || c == 'g' || c == 'e') {
            VASSERT(arg_kind[a] == REAL, "an argument has the type that its conversion needs (real number)");
            emit(2, 0, arg_real[a]);
            out[n_out - 1].digits = digits; out[n_out - 1].conversion = c;
        } else {
            VASSERT(c == 's', "known conversion");
            VASSERT(arg_kind[a] == TEXT, "an argument has the type that its conversion needs (text)");
            vh_puts(arg_text[a]);
        }
        a++;
    }
    VASSERT(a == n_args, "every argument has a conversion");
    return 1;
}
#define VH_PUSH(x) (_Generic((x), char *: vh_text, const char *: vh_text, float: vh_real, double: vh_real, long: vh_long, unsigned long: vh_long, long long: vh_long, unsigned long long: vh_long, default: vh_int)(x))
#define VH_P1(f) (vh_begin(), vh_print(f))
#define VH_P2(f, a) (vh_begin(), VH_PUSH(a), vh_print(f))
#define VH_P3(f, a, b) (vh_begin(), VH_PUSH(a), VH_PUSH(b), vh_print(f))
#define VH_P4(f, a, b, c) (vh_begin(), VH_PUSH(a), VH_PUSH(b), VH_PUSH(c), vh_print(f))
#define VH_P5(f, a, b, c, d) (vh_begin(), VH_PUSH(a), VH_PUSH(b), VH_PUSH(c), VH_PUSH(d), vh_print(f))
#define VH_P6(f, a, b, c, d, e) (vh_begin(), VH_PUSH(a), VH_PUSH(b), VH_PUSH(c), VH_PUSH(d), VH_PUSH(e), vh_print(f))
#define VH_PICK(a, b, c, d, e, f, name, ...) name
#define VH_PRINTF(...) VH_PICK(__VA_ARGS__, VH_P6, VH_P5, VH_P4, VH_P3, VH_P2, VH_P1, 0)(__VA_ARGS__)
/* VH_STREAM is the stream that output has to go to */
static int vh_stdout_mark, vh_stderr_mark;
static int vh_to(const void *stream) { if (stream != (const void *)&VH_STREAM) { other_stream = true; } return 0; }
#undef stderr
#undef stdout
#define stderr ((FILE *)&vh_stderr_mark)
#define stdout ((FILE *)&vh_stdout_mark)
#undef putc
#undef fputc
#undef putchar
#define fprintf(stream, ...) (vh_to(stream), VH_PRINTF(__VA_ARGS__))
#define printf(...) (vh_to(stdout), VH_PRINTF(__VA_ARGS__))
#define fputs(s, stream) (vh_to(stream), vh_puts(s))
#define puts(s) (vh_to(stdout), vh_puts(s), vh_putc('\n'))
#define putc(c, stream) (vh_to(stream), vh_putc(c))
#define fputc(c, stream) (vh_to(stream), vh_putc(c))
#define putchar(c) (vh_to(stdout), vh_putc(c))
#define fflush(stream) ((void)(stream), 0)
#endif
