/* Verification harness helpers.
 *
 * Under CBMC every VH_* input is a nondeterministic (symbolic) value, logged with __CPROVER_input so that the
 * counterexample can be read back. With -DVH_REPLAY the same harness is an ordinary program that reads the values,
 * in the same order, from the file given as argv[1], and is compiled with the sanitizers. */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifdef VH_REPLAY

static FILE *vh_file;
static uint64_t vh_next(const char *name) {
    char buf[256];
    if (!vh_file || !fgets(buf, sizeof(buf), vh_file)) {
        /* not constrained by the counterexample */
        return 0;
    }
    return strtoull(buf, NULL, 0);
}
#define VH_IN(type, name) \
    type name; do { uint64_t vh_raw = vh_next(#name); memcpy(&name, &vh_raw, sizeof(type)); } while (0)
#define VASSUME(c) do { if (!(c)) { fprintf(stderr, "VH-ASSUME-FAILED: %s\n", #c); _Exit(78); } } while (0)
#define VASSERT(c, msg) do { if (!(c)) { fprintf(stderr, "VH-FAIL: %s\n", msg); fflush(NULL); _Exit(77); } } while (0)
#define VH_REACH(label) do { fprintf(stderr, "VH-REACHED: %s\n", label); } while (0)
#ifdef __cplusplus
extern "C"
#endif
#ifndef VH_ENTRY
#define VH_ENTRY harness
#endif
void VH_ENTRY(void);
int main(int argc, char **argv) {
    vh_file = argc > 1 ? fopen(argv[1], "r") : NULL;
    VH_ENTRY();
    fprintf(stderr, "VH-PASS\n");
    return 0;
}

#elif defined(VH_LL)

#ifdef __cplusplus
extern "C" {
#endif
void vh_ll_input(void *p, int size, int kind, const char *name);
void vh_ll_assume(int c);
void vh_ll_assert(int c, const char *msg);
void vh_ll_reach(const char *label);
#ifdef __cplusplus
}
#endif
#define VH_KIND(type) _Generic((type){0}, float: 2, double: 2, bool: 4, unsigned char: 0, unsigned short: 0, unsigned int: 0, unsigned long: 0, unsigned long long: 0, default: 1)
#define VH_IN(type, name) type name; vh_ll_input(&name, sizeof(type), VH_KIND(type), #name)
#define VASSUME(c) vh_ll_assume(c)
#define VASSERT(c, msg) vh_ll_assert(c, msg)
#define VH_REACH(label) vh_ll_reach(label)

#else

#define VH_IN(type, name) type name; __CPROVER_input(#name, name)
#define VASSUME(c) __CPROVER_assume(c)
#define VASSERT(c, msg) __CPROVER_assert(c, msg)
#define VH_REACH(label) __CPROVER_assert(0, "REACH " label)

#endif

/* a float that is only compared, exactly (ordered key), where VH_IN(float) is a real number to Engine B */
#ifdef VH_LL
#define VH_IN_ORDERED(type, name) type name; vh_ll_input(&name, sizeof(type), 3, #name)
#else
#define VH_IN_ORDERED(type, name) VH_IN(type, name)
#endif
/* |a - b| <= tol, without a branch */
#define VCLOSE(a, b, tol, msg) do { const double vh_d = (double)(a) - (double)(b); VASSERT(vh_d <= (tol), msg); VASSERT(-vh_d <= (tol), msg); } while (0)

#if defined(VH_MEMCPY) && !defined(VH_REPLAY) && !defined(VH_LL)
/* plain loops: CBMC's own models are imprecise for symbolic sizes */
void *memcpy(void *dst, const void *src, size_t n) { for (size_t i = 0; i < n; i++) { ((char *)dst)[i] = ((const char *)src)[i]; } return dst; }
void *memmove(void *dst, const void *src, size_t n)
{
    if ((const char *)src < (const char *)dst) { for (size_t i = n; i > 0; i--) { ((char *)dst)[i - 1] = ((const char *)src)[i - 1]; } }
    else { for (size_t i = 0; i < n; i++) { ((char *)dst)[i] = ((const char *)src)[i]; } }
    return dst;
}
void *memset(void *dst, int v, size_t n) { for (size_t i = 0; i < n; i++) { ((char *)dst)[i] = (char)v; } return dst; }
#endif

/* n elements of type, in an allocation of exactly that size (so that an overrun is seen) */
#define VH_BUFFER(type, ptr, n) type *ptr = (type *)malloc(sizeof(type) * (size_t)(n)); VASSUME(ptr != NULL)
#define VH_ARRAY(type, ptr, n) VH_BUFFER(type, ptr, n); \
    for (size_t vh_i_##ptr = 0; vh_i_##ptr < (size_t)(n); vh_i_##ptr++) { VH_IN(type, vh_v_##ptr); ptr[vh_i_##ptr] = vh_v_##ptr; }

#endif
