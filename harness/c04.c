/* Any well-formed tree table: memory safety, totality, agreement with a direct walk of the table, rejection of wrong sizes. */
#include "vh.h"
#include <eml_trees.h>

#ifndef NN
#define NN 3 /* nodes */
#endif
#ifndef NT
#define NT 2 /* trees */
#endif
#ifndef NL
#define NL 3 /* leaves */
#endif
#ifndef MAXF
#define MAXF 3
#endif
#ifndef MAXC
#define MAXC 3
#endif

static EmlTrees model;
static int16_t *feat;
static EmlTreesNode *nodes_;
static int32_t *roots_;
static uint8_t *leaves_;
static int nf, nc;

static void make_table(int leaf_bytes)
{
    VH_IN(uint8_t, f_); VASSUME(f_ >= 1 && f_ <= MAXF); nf = f_;
    VH_BUFFER(EmlTreesNode, nodes, NN);
    for (int i = 0; i < NN; i++) {
        VH_IN(int8_t, feature); VH_IN(int16_t, value); VH_IN(int16_t, left); VH_IN(int16_t, right);
        VASSUME(feature >= 0 && feature < nf);
        VASSUME(left < 0 ? left >= -NL : (left >= 1 && i + left < NN));
        VASSUME(right < 0 ? right >= -NL : (right >= 1 && i + right < NN));
        nodes[i].feature = feature; nodes[i].value = value; nodes[i].left = left; nodes[i].right = right;
    }
    VH_BUFFER(int32_t, roots, NT);
    for (int i = 0; i < NT; i++) { VH_IN(int32_t, root); VASSUME(root >= 0 && root < NN); roots[i] = root; }
    VH_ARRAY(uint8_t, leaves, NL * leaf_bytes);
    VH_ARRAY(int16_t, features, nf);
    feat = features; nodes_ = nodes; roots_ = roots; leaves_ = leaves;
    model.n_nodes = NN; model.nodes = nodes; model.n_trees = NT; model.tree_roots = roots;
    model.n_leaves = NL; model.leaves = leaves; model.n_features = nf; model.n_classes = nc;
}

/* the meaning of the table */
static int ref_leaf(int root)
{
    int idx = root;
    for (int step = 0; step <= NN; step++) {
        const EmlTreesNode *n = &nodes_[idx];
        const int child = (feat[(int)n->feature] < n->value) ? n->left : n->right;
        if (child < 0) { return -child - 1; }
        idx += child;
    }
    return -1000;
}

void harness(void)
{
#if defined(HARD)
    VH_IN(uint8_t, c_); VASSUME(c_ >= 1 && c_ <= MAXC); nc = c_;
    make_table(1);
    model.leaf_bits = 0;
    for (int i = 0; i < NL; i++) { VASSUME(leaves_[i] < nc); }
    int votes[MAXC] = {0};
    for (int t = 0; t < NT; t++) { votes[leaves_[ref_leaf(roots_[t])]]++; }
    int best = 0;
    for (int c = 1; c < nc; c++) { if (votes[c] > votes[best]) { best = c; } }

    const int32_t got = eml_trees_predict(&model, feat, nf);
    VASSERT(got == best, "class with most votes, lowest on ties");
    VH_BUFFER(float, out, nc);
    const EmlError err = eml_trees_predict_proba(&model, feat, nf, out, nc);
    VASSERT(err == EmlOk, "probabilities available");
    for (int c = 0; c < nc; c++) {
        const float d = out[c] * NT - votes[c];
        VASSERT(d < 0.001f && d > -0.001f, "probability is the share of votes");
    }
    VH_REACH("hard");

#elif defined(SOFT)
    nc = SOFT;
    make_table(SOFT);
    model.leaf_bits = 8;
    const int32_t got = eml_trees_predict(&model, feat, nf);
#if NT > 1
    VASSERT(got < nc, "class below the class count");
#else
    int sums[SOFT] = {0};
    for (int t = 0; t < NT; t++) {
        const int leaf = ref_leaf(roots_[t]);
        for (int c = 0; c < nc; c++) { sums[c] += leaves_[leaf * nc + c]; }
    }
    int best = -1, m = 0;
    for (int c = 0; c < nc; c++) { if (sums[c] > m) { best = c; m = sums[c]; } }
    if (best < 0) {
        VASSERT(got < 0, "no class when there is no proportion at all");
    } else {
        VASSERT(got == best, "class with highest proportion, lowest on ties");
    }
#endif
    VH_REACH("soft");

#elif defined(REGRESS)
    nc = 0;
    make_table(4);
    model.leaf_bits = 32;
    VH_BUFFER(float, out, 1);
    const EmlError err = eml_trees_regress(&model, feat, nf, out, 1);
    VASSERT(err == EmlOk, "regression available");
#if NT == 1
    float v;
    memcpy(&v, leaves_ + 4 * ref_leaf(roots_[0]), 4);
    VASSERT(out[0] == v || v != v, "value of the leaf reached");
    const float one = eml_trees_regress1(&model, feat, nf);
    VASSERT(one == v || v != v, "single value variant agrees");
#endif
    VH_REACH("regress");

#elif defined(REJECT)
    /* tables are absent: an error must be reported before anything is read */
    VH_IN(int8_t, n_features); VH_IN(int8_t, n_classes); VH_IN(int8_t, leaf_bits);
    VH_IN(int8_t, length); VH_IN(int8_t, out_length8); VH_IN(int32_t, out_length);
    VASSUME(n_features >= 1 && n_classes >= 0 && leaf_bits >= 0);
    memset(&model, 0, sizeof(model));
    model.n_nodes = 1; model.n_trees = 1; model.n_leaves = 1;
    model.n_features = n_features; model.n_classes = n_classes; model.leaf_bits = leaf_bits;
    VH_BUFFER(int16_t, features, 1);
    VH_BUFFER(float, out, 1);
    out[0] = 42.0f;
    const bool hard_or_soft = leaf_bits == 0 || leaf_bits == 8;
    if (length != n_features || n_classes > EMTREES_MAX_CLASSES || !hard_or_soft) {
        VASSERT(eml_trees_predict(&model, features, length) < 0, "class prediction rejected");
        VH_REACH("reject-class");
    }
    if (length != n_features || out_length != n_classes || !features) {
        VASSERT(eml_trees_predict_proba(&model, features, length, out, out_length) != EmlOk, "probabilities rejected");
        VH_REACH("reject-proba");
    }
    VASSERT(eml_trees_predict_proba(&model, NULL, n_features, out, n_classes) != EmlOk, "missing features rejected");
    VASSERT(eml_trees_predict_proba(&model, features, n_features, NULL, n_classes) != EmlOk, "missing output rejected");
    if (length != n_features || out_length8 < 1 || leaf_bits != 32) {
        VASSERT(eml_trees_regress(&model, features, length, out, out_length8) != EmlOk, "regression rejected");
        VH_REACH("reject-regress");
    }
    if (length != n_features || leaf_bits != 32) {
        const float v = eml_trees_regress1(&model, features, length);
        VASSERT(v != v, "single value regression gives NaN");
        VH_REACH("reject-regress1");
    }
    if (!hard_or_soft && n_classes <= 1) {
        VASSERT(eml_trees_predict_proba(&model, features, n_features, out, n_classes) != EmlOk, "unsupported leaves rejected");
        VH_REACH("reject-leaf-bits");
    }
#endif
}
