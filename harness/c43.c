/* Structured logging: everything that is printed is recorded, with the types of the arguments. */
#include "vh.h"
#include <stdio.h>
#ifndef CAPACITY
#define CAPACITY 1500
#endif
#define VH_STREAM vh_stderr_mark
#include "vhprint.h"
#define EML_LOG_ENABLE 1
#ifndef DEFAULT
#define EML_LOG_PRINTF(...) VH_PRINTF(__VA_ARGS__)
#endif
#ifdef HOOK
#define EML_DEBUG 1
#endif
#define EML_NEIGHBORS_LOG_LEVEL 3
#include <eml_common.h>

/* reading the record */
static int at;
static bool is_char(int c) { return at < n_out && out[at].kind == 0 && out[at].integer == c; }
static bool word_char(void) { return at < n_out && out[at].kind == 0 && out[at].integer > ' ' && out[at].integer != '=' && out[at].integer != 127; }
static void word(void) { VASSERT(word_char(), "a name is not empty"); while (word_char()) { at++; } }
static void value(void)
{
    const int start = at;
    if (at < n_out && out[at].kind != 0) { at++; }
    else if (is_char('[')) {
        at++;
        if (is_char(']')) { at++; return; }
        for (;;) {
            VASSERT(at < n_out && out[at].kind != 0, "an array has its values"); at++;
            if (is_char(',')) { at++; continue; }
            VASSERT(is_char(']'), "an array ends with a bracket"); at++;
            return;
        }
    }
    else { while (word_char()) { at++; } }
    VASSERT(at > start, "a value is not empty");
}
static int entries;
/* event key=value ... newline, as often as needed */
static void well_formed(void)
{
    at = 0; entries = 0;
    while (at < n_out) {
        word();
        while (is_char(' ')) { at++; word(); VASSERT(is_char('='), "a key and its value are separated by ="); at++; value(); }
        VASSERT(is_char('\n'), "an entry is one line of pairs separated by one space");
        at++; entries++;
    }
}
/* position of the value of the last pair with this key, or -1 */
static int find(const char *key)
{
    int found = -1;
    const int n = (int)strlen(key);
    for (int i = 0; i + n + 2 < n_out; i++) {
        bool same = out[i].kind == 0 && out[i].integer == ' ' && out[i + n + 1].kind == 0 && out[i + n + 1].integer == '=';
        for (int j = 0; j < n && same; j++) { same = out[i + 1 + j].kind == 0 && out[i + 1 + j].integer == key[j]; }
        if (same) { found = i + n + 2; }
    }
    return found;
}
static void expect_text(const char *s) { for (; *s; s++) { VASSERT(is_char(*s), "text of the entry"); at++; } }
static void expect_int(int64_t v) { VASSERT(at < n_out && out[at].kind == 1 && out[at].integer == v, "integer of the entry"); at++; }
static void expect_real(double v) { VASSERT(at < n_out && out[at].kind == 2 && out[at].real == v, "real number of the entry"); at++; }

#if MODE == 1
void harness(void)
{
    VH_IN(int32_t, i); VH_IN(float, f); VH_IN(uint8_t, b); VH_IN(int8_t, small); VH_IN(uint16_t, medium);
    char text[TEXTLEN + 1];
    for (int k = 0; k < TEXTLEN; k++) { VH_IN(uint8_t, c); VASSUME(c > ' ' && c < 127 && c != '=' && c != '['); text[k] = (char)c; }
    text[TEXTLEN] = 0;
    EML_LOG_BEGIN("my-event");
    EML_LOG_ADD("key1", text);
    EML_LOG_ADD_INTEGER("key2", i);
    EML_LOG_ADD_BOOL("key3", b & 2);
    EML_LOG_ADD_FLOAT("key4", f);
    EML_LOG_ADD_INTEGER("key5", small);
    EML_LOG_ADD_INTEGER("key6", medium);
    EML_LOG_ADD_BOOL("key7", b == 7);
    EML_LOG_END();
    EML_LOG_BEGIN("next");
    EML_LOG_END();
    expect_text("my-event key1="); expect_text(text); expect_text(" key2="); expect_int(i);
    expect_text((b & 2) ? " key3=true" : " key3=false"); expect_text(" key4="); expect_real(f);
    expect_text(" key5="); expect_int(small); expect_text(" key6="); expect_int(medium);
    expect_text(b == 7 ? " key7=true" : " key7=false"); expect_text("\nnext\n");
    VASSERT(at == n_out, "nothing else is printed");
    well_formed();
    VASSERT(entries == 2, "one line per entry");
    const char *said = EML_LOG_BOOL_STR(b == 9);
    VASSERT(said[0] == (b == 9 ? 't' : 'f'), "text of a boolean");
#ifdef DEFAULT
    VASSERT(!other_stream, "entries go to the error stream");
#endif
    VH_REACH("logged");
}
#elif MODE == 2
void harness(void)
{
    int32_t whole[N + 1]; float real[N + 1]; int16_t shorts[N + 1];
    for (int k = 0; k < N; k++) { VH_IN(int32_t, i); VH_IN(float, f); VH_IN(int16_t, s); whole[k] = i; real[k] = f; shorts[k] = s; }
    const int length = N;
    EML_LOG_BEGIN("arrays");
    EML_LOG_ADD_ARRAY("whole", whole, length, "%d");
    EML_LOG_ADD_ARRAY("real", real, N, "%.3f");
    if (length >= 0) EML_LOG_ADD_ARRAY("shorts", shorts, length, "%d");
    EML_LOG_END();
    expect_text("arrays whole=[");
    for (int k = 0; k < N; k++) { if (k) { expect_text(","); } expect_int(whole[k]); }
    expect_text("] real=[");
    for (int k = 0; k < N; k++) { if (k) { expect_text(","); } expect_real(real[k]); }
    expect_text("] shorts=[");
    for (int k = 0; k < N; k++) { if (k) { expect_text(","); } expect_int(shorts[k]); }
    expect_text("]\n");
    VASSERT(at == n_out, "nothing else is printed");
    well_formed();
    VH_REACH("array logged");
}
#elif MODE == 3
#include <eml_trees.h>
#define NN 3
static EmlTreesNode nodes[NN]; static uint8_t leaves[3 * 4]; static int32_t roots[NT]; static int16_t features[2];
static int leaf_of(int root)
{
    int idx = root;
    for (int step = 0; step <= NN; step++) {
        const int child = features[(int)nodes[idx].feature] < nodes[idx].value ? nodes[idx].left : nodes[idx].right;
        if (child < 0) { return -child - 1; }
        idx += child;
    }
    return -1;
}
void harness(void)
{
    for (int i = 0; i < 2; i++) { VH_IN(int16_t, v); features[i] = v; }
    for (int i = 0; i < NN; i++) { VH_IN(int16_t, th); nodes[i].feature = i % 2; nodes[i].value = th; nodes[i].left = i == 0 ? 1 : (int16_t)(-1 - i + 1); nodes[i].right = i == 0 ? 2 : -1; }
    for (int t = 0; t < NT; t++) { roots[t] = t % NN; }
#if BITS == 32
    float values[3];
    for (int i = 0; i < 3; i++) { VH_IN(float, v); VASSUME(v > -1e6f && v < 1e6f); values[i] = v; }
    memcpy(leaves, values, sizeof(values));
    EmlTrees model = { .n_nodes = NN, .nodes = nodes, .n_trees = NT, .tree_roots = roots, .n_leaves = 3, .leaves = leaves, .leaf_bits = 32, .n_features = 2, .n_classes = 1 };
    float result[1], expected = 0;
    for (int t = 0; t < NT; t++) { expected += values[leaf_of(roots[t])]; }
    expected /= NT;
    const EmlError err = eml_trees_regress(&model, features, 2, result, 1);
    VASSERT(err == EmlOk, "a regression with logging succeeds");
    VASSERT(result[0] - expected < 1e-3f && expected - result[0] < 1e-3f, "logging does not change the value");
    well_formed();
    const int where = find("output");
    VASSERT(where >= 0, "the output is logged");
    VASSERT(out[where].kind == 2 && out[where].real == result[0], "the value that is logged is the one returned");
    VH_REACH("regression logged");
#else
    for (int i = 0; i < 3; i++) { leaves[i] = (uint8_t)i; }
    EmlTrees model = { .n_nodes = NN, .nodes = nodes, .n_trees = NT, .tree_roots = roots, .n_leaves = 3, .leaves = leaves, .leaf_bits = 0, .n_features = 2, .n_classes = 3 };
    int votes[3] = {0};
    for (int t = 0; t < NT; t++) { votes[leaf_of(roots[t])]++; }
    int best = 0;
    for (int c = 1; c < 3; c++) { if (votes[c] > votes[best]) { best = c; } }
    const int32_t got = eml_trees_predict(&model, features, 2);
    VASSERT(got == best, "logging does not change the class");
    well_formed();
    const int where = find("class"), v = find("votes");
    VASSERT(where >= 0 && out[where].kind == 1 && out[where].integer == got, "the class that is logged is the one returned");
    VASSERT(v >= 0 && out[v].kind == 0 && out[v].integer == '[', "the votes are logged as an array");
    for (int c = 0; c < 3; c++) { const VhToken *t = &out[v + 1 + 2 * c]; VASSERT(t->kind == 2 && t->real * NT - votes[c] < 0.01 && votes[c] - t->real * NT < 0.01, "logged votes are the votes"); }
    VH_REACH("class logged");
    n_out = 0;
    VASSERT(eml_trees_predict(&model, features, 1) == -EmlTreesErrorLength, "logging does not change the error");
    well_formed();
#endif
}
#elif MODE == 4
#define VH_MEMCPY
#include <eml_neighbors.h>
void harness(void)
{
    int16_t data[ITEMS * 2 + 2], labels[ITEMS + 1];
    EmlNeighborsDistanceItem distances[ITEMS + 1];
    EmlNeighborsModel model = { .n_features = 2, .n_items = 0, .max_items = ITEMS, .data = data, .labels = labels, .k_neighbors = 1 };
    int16_t wanted[ITEMS][3];
    for (int i = 0; i < ITEMS; i++) {
        VH_IN(int8_t, a); VH_IN(uint8_t, label); VASSUME(label < 4);
        const int16_t values[2] = { a, (int16_t)(10 * i) };
        n_out = 0;
        VASSERT(eml_neighbors_add_item(&model, values, 2, label) == EmlOk, "an item is added with logging");
        wanted[i][0] = a; wanted[i][1] = (int16_t)(10 * i); wanted[i][2] = label;
        well_formed();
        const int w = find("label"), x = find("index");
        VASSERT(w >= 0 && out[w].integer == label && x >= 0 && out[x].integer == i, "the item that is logged is the one added");
    }
    for (int i = 0; i < ITEMS; i++) { VASSERT(data[2 * i] == wanted[i][0] && data[2 * i + 1] == wanted[i][1] && labels[i] == wanted[i][2], "logging does not change the items"); }
    VASSERT(model.n_items == ITEMS, "logging does not change the number of items");
    /* a query at the second coordinate of one item: the item itself is nearest when the first coordinates are equal */
    VH_IN(uint8_t, pick); VASSUME(pick < ITEMS);
    const int16_t query[2] = { wanted[0][0], (int16_t)(10 * pick) };
    for (int i = 0; i < ITEMS; i++) { VASSUME(wanted[i][0] == wanted[0][0]); }
    n_out = 0;
    VASSERT(eml_neighbors_infer(&model, query, 2, distances, ITEMS + 1) == EmlOk, "distances with logging");
    well_formed();
    VASSERT(entries == ITEMS, "one entry per item");
    for (int i = 0; i < ITEMS; i++) { VASSERT(distances[i].index == i && distances[i].distance == (uint32_t)(10 * (i > pick ? i - pick : pick - i)), "logging does not change the distances"); }
    n_out = 0;
    int16_t found = -1;
    VASSERT(eml_neighbors_find_nearest(&model, distances, ITEMS, 1, &found) == EmlOk, "nearest with logging");
    VASSERT(found == wanted[pick][2], "logging does not change the class");
    well_formed();
    const int items = find("items");
    VASSERT(items >= 0 && out[items].integer == ITEMS, "the number of items is logged");
    VH_REACH("neighbours logged");
}
#elif MODE == 5
/* the error macros, without and with the debugging hook */
static int hook_calls; static int hook_code; static int hook_line; static int evaluated;
static EmlError step(int e) { evaluated++; return (EmlError)e; }
static int passed;
static EmlError guarded(int a, int b, int c, EmlError e1, EmlError e2)
{
    passed = 0;
    EML_PRECONDITION(a != 0, e1);
    passed = 1;
    if (a > 5) EML_CHECK_ERROR(step(c));
    passed = 2;
    EML_POSTCONDITION(a < 100 || b > 3, e2);
    passed = 3;
    return EmlOk;
}
#ifdef HOOK
static void hook(EmlError code, const char *file, int line) { hook_calls++; hook_code = code; hook_line = line; VASSERT(file && file[0], "the hook is told the file"); }
#endif
void harness(void)
{
    VH_IN(int32_t, a); VH_IN(int32_t, b); VH_IN(uint8_t, c); VH_IN(uint8_t, hooked); VASSUME(c < EmlErrors);
    VH_IN(uint8_t, e1); VH_IN(uint8_t, e2); VASSUME(e1 >= 1 && e1 < EmlErrors && e2 >= 1 && e2 < EmlErrors);
#ifdef HOOK
    eml_debug = hooked ? hook : NULL;
#endif
    const EmlError got = guarded(a, b, c, (EmlError)e1, (EmlError)e2);
    const bool pre = a != 0, check = !(a > 5) || c == EmlOk, post = a < 100 || b > 3;
    VASSERT(got == (!pre ? (EmlError)e1 : !check ? (EmlError)c : !post ? (EmlError)e2 : EmlOk), "the first failing check is the error returned");
    VASSERT(passed == (!pre ? 0 : !check ? 1 : !post ? 2 : 3), "nothing runs after a failing check");
    VASSERT(evaluated == (pre && a > 5 ? 1 : 0), "the checked expression is evaluated once");
#ifdef HOOK
    VASSERT(hook_calls == (hooked && (!pre || (check && !post)) ? 1 : 0), "the debugging hook is called once per failing condition");
    if (hook_calls) { VASSERT(hook_code == got && hook_line > 0, "the hook is told the error that is returned"); }
#endif
    VH_IN(int32_t, code);
    const char *s = eml_error_str((EmlError)code);
    VASSERT(s != NULL && s[0] != 0, "every code has a text");
    VASSERT(eml_error_valid((EmlError)code) == (code >= 0 && code < EmlErrors), "valid codes");
    const char *inv = "Invalid";
    bool invalid = true;
    for (int i = 0; i < 7; i++) { if (s[i] != inv[i]) { invalid = false; break; } }
    VASSERT(invalid == !(code >= 0 && code < EmlErrors), "text of invalid codes");
    for (int i = 0; i < EmlErrors; i++) { if (i != code) { VASSERT(eml_error_str((EmlError)i) != s, "texts differ"); } }
    VH_REACH("checked");
}
#endif
