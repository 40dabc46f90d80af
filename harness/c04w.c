/* Large tables: node numbers, jumps and leaf numbers up to the limits of their types, any features. WIDTH 0: class in the leaf, 1: value, else: proportions */
#include "vh.h"
#include <eml_trees.h>
#include <string.h>
#define NODES 40000
#define LEAVES 32768
#define CLASSES 3
#if WIDTH == 0
#define LEAF 1
#elif WIDTH == 1
#define LEAF 4
#else
#define LEAF CLASSES
#endif
static EmlTreesNode nodes[NODES];
static uint8_t leaves[LEAVES * LEAF];
static int32_t roots[3] = { 0, 35000, 39999 };
static const int used[] = { 8191, 8192, 16384, 32767, 10923, 21845, 127, 255, 256 };
#define USED 9

static void set(int i, int feature, int value, int left, int right)
{
    nodes[i].feature = (int8_t)feature; nodes[i].value = (int16_t)value; nodes[i].left = (int16_t)left; nodes[i].right = (int16_t)right;
}
#define L(n) (-(n) - 1)
static int leaf_of(int root, const int16_t *x)
{
    int i = root;
    while (1) {
        const int c = x[nodes[i].feature] < nodes[i].value ? nodes[i].left : nodes[i].right;
        if (c < 0) { return -c - 1; }
        i += c;
    }
}
static int class_of(int leaf) { for (int u = 0; u < USED; u++) { if (used[u] == leaf) { return u % CLASSES; } } return -1; }
static float value_of(int leaf) { for (int u = 0; u < USED; u++) { if (used[u] == leaf) { return 1.5f + 2.0f * (float)u; } } return -1.0f; }
static int part_of(int leaf, int c) { for (int u = 0; u < USED; u++) { if (used[u] == leaf) { return c == u % CLASSES ? 255 - 7 * u : c == (u + 1) % CLASSES ? 7 * u : 0; } } return -1; }

void harness(void)
{
    set(0, 0, 100, L(8191), 30000);
    set(30000, 1, -5, L(8192), 9999);
    set(35000, 1, 7, L(10923), 100);
    set(35100, 0, -20000, L(21845), 2000);
    set(37100, 0, 20000, 2899, L(127));
    set(39999, 0, 3000, L(32767), L(16384));
    set(35200, 0, 0, L(255), L(256));
    for (int u = 0; u < USED; u++) {
#if WIDTH == 0
        leaves[used[u]] = (uint8_t)class_of(used[u]);
#elif WIDTH == 1
        const float v = value_of(used[u]);
        memcpy(&leaves[used[u] * 4], &v, 4);
#else
        for (int c = 0; c < CLASSES; c++) { leaves[used[u] * CLASSES + c] = (uint8_t)part_of(used[u], c); }
#endif
    }
    EmlTrees m = { NODES, nodes, 3, roots, LEAVES, leaves, WIDTH == 0 ? 0 : WIDTH == 1 ? 32 : 8, 2, WIDTH == 1 ? 1 : CLASSES };
    VH_BUFFER(int16_t, x, 2);
    for (int f = 0; f < 2; f++) { VH_IN(int16_t, v); x[f] = v; }
    int leaf[3];
    for (int t = 0; t < 3; t++) { leaf[t] = leaf_of(roots[t], x); }
    VH_BUFFER(float, out, CLASSES);
#if WIDTH == 1
    VASSERT(eml_trees_regress(&m, x, 2, out, 1) == 0, "no error");
    VCLOSE(out[0], (value_of(leaf[0]) + value_of(leaf[1]) + value_of(leaf[2])) / 3.0, 1e-5, "mean of the leaf values");
    VCLOSE(eml_trees_regress1(&m, x, 2), (value_of(leaf[0]) + value_of(leaf[1]) + value_of(leaf[2])) / 3.0, 1e-5, "mean of the leaf values");
#else
    double score[CLASSES];
    for (int c = 0; c < CLASSES; c++) {
        score[c] = 0.0;
        for (int t = 0; t < 3; t++) { score[c] += WIDTH == 0 ? (class_of(leaf[t]) == c ? 1.0 : 0.0) : part_of(leaf[t], c) / 255.0; }
    }
    VASSERT(eml_trees_predict_proba(&m, x, 2, out, CLASSES) == EmlOk, "no error");
    for (int c = 0; c < CLASSES; c++) { VCLOSE(out[c], score[c] / 3.0, 1e-5, "mean over the trees"); }
    const int got = eml_trees_predict(&m, x, 2);
    VASSERT(got >= 0 && got < CLASSES, "a class");
    for (int c = 0; c < CLASSES; c++) { VASSERT(score[got] >= score[c] - 1e-9, "class with the most support"); }
#endif
    VH_REACH("done");
}
