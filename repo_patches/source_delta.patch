From 61f9689c49a922196e9ad5952bf2e5f6a0d9dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 01/55] fix: error descriptions of EmlUnsupported and
 EmlUninitialized were swapped

---
 emlearn/eml_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_common.h b/emlearn/eml_common.h
index a08c24d..c1021d4 100644
--- a/emlearn/eml_common.h
+++ b/emlearn/eml_common.h
@@ -31,8 +31,8 @@ static const char * const
 eml_error_strs[EmlErrors] = {
     "OK",
     "SizeMismatch",
-    "Uninitialized",
     "Unsupported",
+    "Uninitialized",
     "Postcondition failed",
     "Unknown error",
 };
-- 
2.43.0


From 20c0557c5a87d9df6193513fc87eec9938c0033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 02/55] fix: tree child offset of 2**15 does not fit int16_t,
 must be refused

---
 emlearn/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index d022e83..9d55495 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -288,7 +288,7 @@ def remove_duplicate_leaves(forest):
     return f
 
 
-def assert_valid_child(value, child_max = 2**15, child_min = -2**15):
+def assert_valid_child(value, child_max = 2**15-1, child_min = -2**15):
     assert value >= child_min, value
     assert value <= child_max, value
 
-- 
2.43.0


From 1e53e3a8ff71b5ce6585557b964d07f89f44c0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 03/55] fix: tree code must go left when feature equals the
 threshold, as scikit-learn does

scikit-learn goes left when (x <= threshold). The generated code used (x < int(threshold)) for integers,
and a threshold with 6 decimals for floats, so samples at (or close to) the threshold went to the wrong leaf.
---
 emlearn/trees.py | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 9d55495..080048f 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -306,6 +306,35 @@ def encode_child(index, child):
     assert_valid_child(encoded)
     return encoded
 
+def integer_threshold(threshold, dtype):
+    """
+    Threshold for the integer comparison (x < value), as used by the C code
+
+    scikit-learn goes left when (x <= threshold).
+    For an integer x that is the same as (x < floor(threshold)+1)
+    """
+    value = math.floor(threshold) + 1
+
+    bits = int(''.join(c for c in dtype if c.isdigit()) or 32)
+    low, high = (0, 2**bits-1) if dtype.startswith('u') else (-2**(bits-1), 2**(bits-1)-1)
+    if value < low or value > high:
+        raise ValueError(f"Threshold {threshold} does not fit in dtype '{dtype}'")
+    return value
+
+def float_threshold(threshold):
+    """
+    Literal for the floating point comparison (x <= value), where x is single-precision
+
+    Rounds down to the nearest float32, and uses enough digits to represent it exactly
+    """
+    value = numpy.float32(threshold)
+    if float(value) > threshold:
+        value = numpy.nextafter(value, numpy.float32(-numpy.inf))
+    literal = '{:.9g}'.format(value)
+    if not ('.' in literal or 'e' in literal):
+        literal += '.0'
+    return literal + 'f'
+
 def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
     def make_node(index, node):
@@ -313,7 +342,7 @@ def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
         left = encode_child(index, left_child)
         right = encode_child(index, right_child)
-        value = cgen.constant(value, dtype=dtype)
+        value = cgen.constant(integer_threshold(value, dtype), dtype=dtype)
 
         return "{{ {}, {}, {}, {} }}".format(feature, value, left, right)
 
@@ -371,13 +400,20 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
         value = cgen.constant(data, dtype=leaf_dtype)
         return (depth*indent * ' ') + "return {};".format(value)
     def c_internal(n, depth):
-        f = """{indent}if (features[{feature}] < {value}) {{
+        if 'int' in dtype:
+            operator, value = '<', cgen.constant(integer_threshold(n[1], dtype), dtype=dtype)
+        elif dtype == 'float':
+            operator, value = '<=', float_threshold(n[1])
+        else:
+            operator, value = '<=', cgen.constant(n[1], dtype=dtype)
+        f = """{indent}if (features[{feature}] {operator} {value}) {{
         {left}
         {indent}}} else {{
         {right}
         {indent}}}""".format(**{
             'feature': cgen.constant(n[0], dtype='int'),
-            'value': cgen.constant(n[1], dtype=dtype),
+            'operator': operator,
+            'value': value,
             'left': c_node(n[2], depth+1),
             'right': c_node(n[3], depth+1),
             'indent': depth*indent*' ',
-- 
2.43.0


From 10f1741c87612f73bc37d5227b4e8ac8e5d5234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 04/55] fix: CSV export of trees failed for single-leaf trees,
 and garbled class proportions

---
 emlearn/trees.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 080048f..68286dd 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -926,7 +926,8 @@ class Wrapper:
             lines.append(f'c,{self.n_classes}')
             lines.append(f'lb,{self.leaf_bits}')
             for l in leaves:
-                lines.append(f'l,{l}')
+                values = ','.join(str(v) for v in numpy.atleast_1d(l))
+                lines.append(f'l,{values}')
             for r in roots:
                 lines.append(f'r,{r}')
 
@@ -936,7 +937,7 @@ class Wrapper:
                 left = encode_child(index, left_child)
                 right = encode_child(index, right_child)
 
-                serialized = f'n,{feature},{value.round(6)},{left},{right}'
+                serialized = f'n,{feature},{round(float(value), 6)},{left},{right}'
                 return serialized
 
             for i, n in enumerate(nodes):
-- 
2.43.0


From 02527f907d39aa44d1032f1b8bfbc490f636417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 05/55] fix: tree prediction errors were reported as a class
 number, and too many classes were truncated

---
 emlearn/trees.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 68286dd..2a8eee2 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -775,6 +775,11 @@ class Wrapper:
         if self.n_features > max_features:
             raise ValueError(f"Maximum features exceeded. features={self.n_features} max={max_features}")
 
+        # EmlTrees uses int8_t for number of classes
+        max_classes = 127
+        if self.method == 'loadable' and self.n_classes > max_classes:
+            raise ValueError(f"Maximum classes exceeded. classes={self.n_classes} max={max_classes}")
+
         self._classifier = None # lazy-initialized by _build_classifier
 
     def _build_classifier(self):
@@ -801,9 +806,6 @@ class Wrapper:
                     features[i] = ({feature_dtype})values[i];
                 }}
                 const {return_type} out = {name}_predict(features, length);
-                if (out < 0) {{
-                    return -out;
-                }}
                 return out;
             }}""",
             f"""
@@ -867,6 +869,9 @@ class Wrapper:
 
         if self.is_classifier:
             predictions = self.classifier_.predict(X)
+            errors = [ p for p in predictions if p < 0 ]
+            if errors:
+                raise ValueError(f"Prediction failed. error={-errors[0]}")
         else:
             predictions = self.classifier_.regress(X)            
 
-- 
2.43.0


From 5035cbf36c357404d0e5f52e13259e0d7ed4129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 06/55] fix: tree probabilities and regression did not check
 number of features, and read leaves unaligned

---
 emlearn/eml_trees.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 531cd02..b89247c 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -12,6 +12,7 @@
 
 #include <stdint.h>
 #include <math.h>
+#include <string.h>
 #include <eml_common.h>
 
 #ifdef __cplusplus
@@ -123,6 +124,7 @@ eml_trees_predict_proba(const EmlTrees *self,
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_trees_outputs_proba(self);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
+    EML_PRECONDITION(features_length == self->n_features, EmlSizeMismatch);
 
     for (int i=0; i<out_length; i++) {
         out[i] = 0.0f;
@@ -263,6 +265,10 @@ eml_trees_regress(const EmlTrees *forest,
         return EmlSizeMismatch;
     }
 
+    if (features_length != forest->n_features) {
+        return EmlSizeMismatch;
+    }
+
     if (forest->leaf_bits != 32) {
         // only majority vote supported for now
         return EmlUnsupported;
@@ -274,8 +280,9 @@ eml_trees_regress(const EmlTrees *forest,
     for (int32_t i=0; i<forest->n_trees; i++) {
         const int32_t leaf_number = eml_trees_predict_tree(forest, forest->tree_roots[i], features, features_length);        
         const int32_t leaf_offset = leaf_number * leaf_size;
-        const float *leaf_data = (float *)(forest->leaves + leaf_offset);
-        const float val = *leaf_data;
+        // leaves has no alignment requirement, so cannot be accessed as float
+        float val;
+        memcpy(&val, forest->leaves + leaf_offset, leaf_size);
         sum += val;
     }
 
-- 
2.43.0


From af9bc25f05983ba01ecf8adb2d83f6b68b455629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 07/55] fix: nearest neighbors distance overflowed, or never
 terminated, for large differences

---
 emlearn/eml_neighbors.h | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index c90a318..55ad888 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -26,37 +26,37 @@ in order to support on-device learning.
 #endif // EML_NEIGHBORS_MAX_CLASSES
 
 
-int32_t eml_isqrt(int32_t x)
+// Integer square root, rounded down
+uint32_t eml_isqrt(uint64_t x)
 {
-    int32_t q = 1, r = 0;
-    while (q <= x) {
-        q <<= 2;
-    }
-    while (q > 1) {
-        int32_t t;
+    // The largest power of 4 that fits in 64 bits
+    uint64_t q = (uint64_t)1 << 62;
+    uint64_t r = 0;
+    while (q > x) {
         q >>= 2;
-        t = x - r - q;
-        r >>= 1;
-        if (t >= 0) {
-            x = t;
-            r += q;
+    }
+    while (q > 0) {
+        if (x >= r + q) {
+            x -= r + q;
+            r = (r >> 1) + q;
+        } else {
+            r >>= 1;
         }
+        q >>= 2;
     }
-    return r;
+    return (uint32_t)r;
 }
 
 uint32_t
 eml_distance_euclidean_int16(const int16_t *a, const int16_t *b, int length)
 {
-    // FIXME: test this with large values
-    uint32_t ret = 0;
+    // a difference can be up to 65535, and its square does not fit in 32 bits signed
+    uint64_t sum = 0;
     for (int i=0; i<length; i++) {
-        const int32_t diff = a[i] - b[i];        
-        const int32_t d = diff * diff;
-        ret += d;
+        const int64_t diff = (int32_t)a[i] - b[i];
+        sum += (uint64_t)(diff * diff);
     }
-    ret = eml_isqrt(ret); 
-    return ret;
+    return eml_isqrt(sum);
 }
 
 /** @typedef EmlNeighborsDistanceItem
-- 
2.43.0


From a744ca258efc87ea5749cd5bb5dfcad5ea5b0087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 08/55] fix: bayes prediction overflowed its class array, did
 not check number of features, and overflowed for values far from the mean

---
 emlearn/eml_bayes.h | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 056d4f8..58c4173 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -71,27 +71,28 @@ int32_t eml_bayes_log2fix (uint32_t x, size_t precision)
 }
 
 // log2 of normpdf, implemented using quadratic function
-static eml_q16_t
-eml_bayes_logpdf_std(eml_q16_t x)
+// Uses Q16 format, but with 64 bits. The square of large values does not fit in 32 bits
+static int64_t
+eml_bayes_logpdf_std(int64_t x)
 {
     const eml_q16_t a = EML_Q16_FROMFLOAT(-0.7213475204444817);
     const eml_q16_t b = EML_Q16_FROMFLOAT(-1.0005845727355313e-15);
     const eml_q16_t c = EML_Q16_FROMFLOAT(-1.3257480647361592);
 
-    const eml_q16_t axx = eml_q16_mul(a, eml_q16_mul(x, x));
-    const eml_q16_t bx = eml_q16_mul(b, x);
-    const eml_q16_t y = axx + bx + c;
+    const int64_t axx = eml_q16_mul(a, eml_q16_mul(x, x));
+    const int64_t bx = eml_q16_mul(b, x);
+    const int64_t y = axx + bx + c;
     return y;
 }
 
 // log2 of normal probability density function PDF
 // using a scaled/translated standard distribution
-static eml_q16_t
+static int64_t
 eml_bayes_logpdf(eml_q16_t x, eml_q16_t mean, eml_q16_t std, eml_q16_t stdlog2)
 {
    const eml_q16_t xm = eml_q16_div((x - mean), std);
-   const eml_q16_t xx = (xm > 0) ? xm : -xm;
-   const eml_q16_t p = eml_bayes_logpdf_std(xx) - stdlog2;
+   const int64_t xx = (xm > 0) ? xm : -(int64_t)xm;
+   const int64_t p = eml_bayes_logpdf_std(xx) - stdlog2;
    return p; 
 }
 
@@ -112,30 +113,25 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
    EML_PRECONDITION(model, -EmlUninitialized);
    EML_PRECONDITION(values, -EmlUninitialized);
    EML_PRECONDITION(model->n_classes >= 2, -EmlUninitialized);
+   EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
-   eml_q16_t class_probabilities[EML_MAX_CLASSES];
+   int64_t highest_prob = 0;
+   int32_t highest_idx = -1;
 
    for (int class_idx = 0; class_idx<model->n_classes; class_idx++) {
 
-      eml_q16_t class_p = 0;
+      int64_t class_p = 0;
       for (int value_idx = 0; value_idx<values_length; value_idx++) {
          const int32_t summary_idx = class_idx*model->n_features + value_idx;
          EmlBayesSummary summary = model->summaries[summary_idx];
          const eml_q16_t val = EML_Q16_FROMFLOAT(values[value_idx]);
-         const eml_q16_t plog = eml_bayes_logpdf(val, summary.mean, summary.std, summary.stdlog2);
+         const int64_t plog = eml_bayes_logpdf(val, summary.mean, summary.std, summary.stdlog2);
 
          class_p += plog;
       }
-      class_probabilities[class_idx] = class_p;
       //printf("class %d : %f\n", class_idx, p);
-   }
-
-   eml_q16_t highest_prob = class_probabilities[0];
-   int32_t highest_idx = 0;
-   for (int class_idx = 1; class_idx<model->n_classes; class_idx++) {
-      const eml_q16_t p = class_probabilities[class_idx]; 
-      if (p > highest_prob) {
-         highest_prob = p;
+      if (highest_idx < 0 || class_p > highest_prob) {
+         highest_prob = class_p;
          highest_idx = class_idx;
       }
    }
-- 
2.43.0


From 73775452f75ad976776807d60bae045d698a9466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 09/55] fix: network with two outputs had its class
 probabilities swapped

---
 emlearn/eml_net.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 2cd984c..54796d3 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -303,7 +303,7 @@ eml_net_predict_proba(EmlNet *model, const float *features, int32_t features_len
 
     float proba_sum = 0.0f;
 
-    if (n_outputs == 2) {
+    if (eml_net_outputs(model) == 1) {
         out[1] = model->activations2[0];
         out[0] = 1.0f - out[1];
         proba_sum = out[0] + out[1];
-- 
2.43.0


From 7475a842e1d27c91c072a12c25ac0c40b23af4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 10/55] fix: network functions accessed the layers of an
 uninitialized model before checking it

---
 emlearn/eml_net.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 54796d3..9e4d9eb 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -105,7 +105,7 @@ eml_net_argmax(const float *values, int32_t values_length) {
 static bool
 eml_net_valid(EmlNet *model) {
     bool not_null = model->layers && model->activations1 && model->activations2;
-    return not_null;
+    return not_null && model->n_layers >= 1;
 }
 
 static inline int32_t
@@ -364,6 +364,7 @@ eml_net_predict(EmlNet *model, const float *features, int32_t features_length) {
 EmlError
 eml_net_regress(EmlNet *model, const float *features, int32_t features_length, float *out, int32_t out_length)
 {
+    EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_net_outputs(model);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
-- 
2.43.0


From 983868b3a7490fca859fc2512a2625bf1107ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 11/55] fix: argmax of fixed-point values was -1 when the first
 value is the largest

---
 emlearn/eml_net_fixedpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_net_fixedpoint.h b/emlearn/eml_net_fixedpoint.h
index 9bf0a0e..7c463a2 100644
--- a/emlearn/eml_net_fixedpoint.h
+++ b/emlearn/eml_net_fixedpoint.h
@@ -76,7 +76,7 @@ eml_argmax_fixed32(const eml_fixed32_t *values, int values_length)
     }
 
     eml_fixed32_t vmax = values[0];
-    int32_t argmax = -1;
+    int32_t argmax = 0;
     for (int i=0; i<values_length; i++) {
         if (values[i] > vmax) {
             vmax = values[i];
-- 
2.43.0


From 09929c28190b0198ea2f60189ea9e23457e61a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 12/55] fix: inline network overflowed its buffers when given
 too many features

---
 emlearn/templates/net_fixedpoint.jinja | 3 +++
 emlearn/templates/net_float.jinja      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/emlearn/templates/net_fixedpoint.jinja b/emlearn/templates/net_fixedpoint.jinja
index 6dfa886..333e3ad 100644
--- a/emlearn/templates/net_fixedpoint.jinja
+++ b/emlearn/templates/net_fixedpoint.jinja
@@ -25,6 +25,9 @@ EmlError
     eml_fixed32_t *buffer1 = activations1;
     eml_fixed32_t *buffer2 = activations2;
 
+    EML_PRECONDITION(in_length == {{ prefix }}_layer_0_input_length, EmlSizeMismatch);
+    EML_PRECONDITION(buffer_length >= {{ prefix }}_activations_length, EmlSizeMismatch);
+
     // Copy input to working buffer
     for (int i=0; i<in_length; i++) {
         buffer1[i] = in[i];
diff --git a/emlearn/templates/net_float.jinja b/emlearn/templates/net_float.jinja
index 698f731..7a7f959 100644
--- a/emlearn/templates/net_float.jinja
+++ b/emlearn/templates/net_float.jinja
@@ -25,6 +25,9 @@ EmlError
     float *buffer1 = activations1;
     float *buffer2 = activations2;
 
+    EML_PRECONDITION(in_length == {{ prefix }}_layer_0_input_length, EmlSizeMismatch);
+    EML_PRECONDITION(buffer_length >= {{ prefix }}_activations_length, EmlSizeMismatch);
+
     // Copy input to working buffer
     for (int i=0; i<in_length; i++) {
         buffer1[i] = in[i];
-- 
2.43.0


From 05861ade0897092ba561f4c05d6632ec8c2cff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 13/55] fix: eml_dot_product returned a boolean

---
 emlearn/eml_mixture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index c19343d..9e68249 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -14,7 +14,7 @@ extern "C" {
 // numpy.log(2*numpy.pi)
 #define EML_LOG_2PI 1.8378770664093453
 
-bool
+float
 eml_dot_product(float *a, float *b, int n)
 {
     float sum = 0; 
-- 
2.43.0


From 46747d935ee4e38e4f1f217cd54b67f27185e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 14/55] fix: mixture model read out of bounds when given too
 few features

---
 emlearn/eml_mixture.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index 9e68249..34c4d82 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -168,6 +168,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
+    EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
     float *out = probabilities;
     const int n_features = model->n_features;
-- 
2.43.0


From 996bcbb9b43eb282e40a1355de7a1001dba9f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 15/55] fix: array size computation overflowed, so too small
 buffers were accepted

---
 emlearn/eml_array.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 8782bfb..5ba6f79 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -32,12 +32,16 @@ size_t
 eml_storage_size_array(int8_t n_dims, int32_t *dims, int8_t value_size)
 {
 
-    int64_t product = 1;
+    // Saturates if the size does not fit
+    size_t size = value_size;
     for (int d=0; d<n_dims; d++) {
-        product = product * dims[d]; 
+        const size_t dim = dims[d];
+        if (dim == 0) {
+            return 0;
+        }
+        size = (size > SIZE_MAX / dim) ? SIZE_MAX : size * dim;
     }
-    return product * value_size;
-
+    return size;
 }
 
 EmlError
@@ -104,7 +108,7 @@ eml_array_data_2d(EmlArray *self, int col, int row)
     if (!(col >= 0)) { return NULL; }
     if (!(row >= 0)) { return NULL; }
 
-    const int offset = (row * self->dims[0]) + col;
+    const size_t offset = ((size_t)row * self->dims[0]) + col;
     void *data = self->data + (self->value_size * offset);
 
     return data;
@@ -162,7 +166,7 @@ eml_array_shift_rows(EmlArray *self, int shift)
     EML_PRECONDITION(abs(shift) <= rows, EmlSizeMismatch);
     EML_PRECONDITION(shift <= 0, EmlUnsupported); // TODO: support also forward shifts
 
-    const size_t row_size = self->value_size * self->dims[0];
+    const size_t row_size = (size_t)self->value_size * self->dims[0];
 
 #if 0
     EML_LOG_BEGIN("eml_array_shift_rows_begin");
@@ -209,7 +213,7 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
     EML_PRECONDITION((start + other->dims[1]) <= self->dims[1], EmlSizeMismatch);
 
 
-    const size_t row_size = self->value_size * self->dims[0];
+    const size_t row_size = (size_t)self->value_size * self->dims[0];
 
     for (int i=0; i<other->dims[1]; i++) {
 
-- 
2.43.0


From fe9d71a7b002412673c19bbb2db8ad72c86fe1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 16/55] fix: array shift/copy of rows with extreme positions or
 mismatched value size went out of bounds

---
 emlearn/eml_array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 5ba6f79..f98cd4f 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -163,7 +163,7 @@ eml_array_shift_rows(EmlArray *self, int shift)
     const int rows = self->dims[1];
     EML_PRECONDITION(self->n_dims == 2, EmlUnsupported);
     // trying to shift more than the size of buffer is likely an error
-    EML_PRECONDITION(abs(shift) <= rows, EmlSizeMismatch);
+    EML_PRECONDITION(shift <= rows && shift >= -rows, EmlSizeMismatch);
     EML_PRECONDITION(shift <= 0, EmlUnsupported); // TODO: support also forward shifts
 
     const size_t row_size = (size_t)self->value_size * self->dims[0];
@@ -206,11 +206,13 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
     EML_PRECONDITION(start >= 0, EmlUnsupported);
     // must have same number of columns
     EML_PRECONDITION(other->dims[0] == self->dims[0], EmlSizeMismatch);
+    // must have same size of values
+    EML_PRECONDITION(other->value_size == self->value_size, EmlSizeMismatch);
     // other must not be too big
 
 //    fprintf(stderr, "start %d - %d- other_rows %d, self_rows %d \n",
 //        start, start+other->dims[1], other->dims[1], self->dims[1]);
-    EML_PRECONDITION((start + other->dims[1]) <= self->dims[1], EmlSizeMismatch);
+    EML_PRECONDITION(start <= self->dims[1] - other->dims[1], EmlSizeMismatch);
 
 
     const size_t row_size = (size_t)self->value_size * self->dims[0];
-- 
2.43.0


From 7919c0139d72568191f205ee5823f6dbc3d8b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 17/55] fix: mel filter read one past the end of the spectrum

---
 emlearn/eml_audio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index ef3e262..f0beb7a 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -102,7 +102,7 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
         if (left < 0) {
             return EmlUnknownError;
         }
-        if (right > max_bin) {
+        if (right >= max_bin) {
             return EmlUnknownError;
         }
 
-- 
2.43.0


From d3a630e34d2018b85e6ab5623a3b168fa097ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 18/55] fix: CSV reader scanned out of bounds when read
 function fails

---
 emlearn/eml_csv.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 8a16bc8..6d4e6ef 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -113,8 +113,12 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
 
     // Copy the (potential header) into our buffer
     // We will return pointers into this buffer
-    const size_t read_length = \
+    const int read_status = \
         self->read(self->stream, (uint8_t *)buffer, buffer_length);
+    if (read_status < 0) {
+        return EmlUnknownError;
+    }
+    const size_t read_length = read_status;
 
     // Find start of data / end-of-header
     // int data_start = -1; // XXX: why unused?
-- 
2.43.0


From cd0f0cf453914aaef579d1c2548dc6ce00143f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 19/55] fix: CSV reader reported too small columns array as a
 successful read

---
 emlearn/eml_csv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 6d4e6ef..45f8f2c 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -194,7 +194,7 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         char *buffer, size_t buffer_length,
         char **columns, size_t columns_length)
 {
-    EML_PRECONDITION(columns_length >= self->n_columns, EmlSizeMismatch);
+    EML_PRECONDITION(columns_length >= self->n_columns, -EmlSizeMismatch);
 
     int columns_read = 0;
     int characters_read = 0;
-- 
2.43.0


From 89a188411faab784b5344bfdc9607310a58f3b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 20/55] fix: sparse filterbank with zeros inside a filter had
 misaligned coefficients

---
 emlearn/signal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/emlearn/signal.py b/emlearn/signal.py
index 9749801..8b41fd8 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -16,10 +16,12 @@ def sparse_filterbank(mels):
     for mel_idx in range(mels.shape[0]):
         mel = mels[mel_idx]
         nonzero = numpy.nonzero(mel)[0]
-        first, last = nonzero[0], nonzero[-1]
+        # a filter without any coefficients is stored as a single zero
+        first, last = (nonzero[0], nonzero[-1]) if len(nonzero) else (0, 0)
         starts.append(first)
         ends.append(last)
-        coeffs += list(mel[nonzero])
+        # include any zeros inside the filter, there must be one coefficient per input
+        coeffs += list(mel[first:last+1])
 
     return starts, ends, coeffs
 
-- 
2.43.0


From 16870bb8122b99a5b96fa9f949a35e8b2c81905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 21/55] fix: identifier with trailing newline was considered
 valid

---
 emlearn/cgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index e83d2d6..b0b0dde 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -125,7 +125,7 @@ def identifier_is_valid(s):
     True
 
     """
-    match = re.match(VALID_IDENTIFIER_REGEX, s)
+    match = re.fullmatch(VALID_IDENTIFIER_REGEX, s)
     return match is not None
 
 def identifier_is_reserved(s):
-- 
2.43.0


From 9154b4470288c872c75565e23a65ab6c86dad66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 22/55] fix: elliptic envelope sample on the decision boundary
 is an inlier, as in scikit-learn and the C code

---
 emlearn/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 1b6fa8c..c52f011 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -125,7 +125,7 @@ class Wrapper:
         def predict_one(d):
             dist = -d
             dd = dist - self._offset
-            is_inlier = 1 if dd > 0 else -1
+            is_inlier = 1 if dd >= 0 else -1
             return is_inlier
 
         distances = self.mahalanobis(X)
-- 
2.43.0


From 2e811bd5ec7180b5d176e4193334eea291496b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 23/55] fix: eml_vector_set overflowed for large location, and
 reported success

---
 emlearn/eml_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_vector.h b/emlearn/eml_vector.h
index c7b0811..93de5fa 100644
--- a/emlearn/eml_vector.h
+++ b/emlearn/eml_vector.h
@@ -18,13 +18,13 @@ typedef struct {
 
 int
 eml_vector_set(EmlVector dest, EmlVector source, int location) {
-    const int final_dest = source.length+location;
-    if (final_dest > dest.length) {
+    if (location > dest.length - source.length) {
         return -1;
     }
     if (location < 0) {
         return -2;
     }
+    const int final_dest = source.length+location;
 
     for (int i=location; i<final_dest; i++) {
         dest.data[i] = source.data[i-location]; 
-- 
2.43.0


From 5bf2e548dcb3ca8b1a063b062622fdeeddd647e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 24/55] fix: fixed-point log2 did not terminate for precision
 31, and overflowed above 26 bits

---
 emlearn/eml_bayes.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 58c4173..63bbce2 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -34,14 +34,15 @@ typedef struct _EmlBayesModel {
 static inline
 int32_t eml_bayes_log2fix (uint32_t x, size_t precision)
 {
-    int32_t b = 1U << (precision - 1);
-    int32_t y = 0;
-
-    if (precision < 1 || precision > 31) {
+    // With more than 26 bits, the logarithm of small values does not fit in 32 bits
+    if (precision < 1 || precision > 26) {
         //errno = EINVAL;
         return INT32_MAX; // indicates an error
     }
 
+    int32_t b = 1U << (precision - 1);
+    int32_t y = 0;
+
     if (x == 0) {
         return INT32_MIN; // represents negative infinity
     }
-- 
2.43.0


From 22907b0413c66ea6530ba8b5511e15c0f2c18701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 25/55] fix: Pareto front flipped the performance column, and
 cut at the wrong side, when it was named mean_test_score

---
 emlearn/evaluate/pareto.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index d85033f..d4e4bdb 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -40,17 +40,12 @@ def find_pareto_front(df,
     :returns: The rows that make up the Pareto front
     """
 
-    # prevnt mutating input    
-    df = df.copy()
-
     # flip to negative-is-better
+    score = df[performance_metric].values
     if higher_is_better:
-        df['mean_test_score'] = -df[performance_metric]
-    else:
-        df['mean_test_score'] = df[performance_metric]
+        score = -score
 
-    pp = is_pareto_efficient_simple(df[['mean_test_score', cost_metric]].values)
-    
+    pp = is_pareto_efficient_simple(numpy.stack([score, df[cost_metric].values], axis=1))
     if min_performance is not None:
         if higher_is_better:
             pp = (pp & (df[performance_metric] >= min_performance))
-- 
2.43.0


From 6fcd8e6064b15212b1ad7cf483e078947d1a2427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 26/55] fix: elliptic envelope reported a wrong number of
 features as an outlier

---
 emlearn/eml_distance.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_distance.h b/emlearn/eml_distance.h
index 61b9fab..406b23c 100644
--- a/emlearn/eml_distance.h
+++ b/emlearn/eml_distance.h
@@ -57,14 +57,14 @@ typedef struct _EmlEllipticEnvelope {
 * \param features The input data values
 * \param features Length of input data array
 * \param out_dist Return location for the continious outlier score (Mahalanobis distance)
-* \return 1 for outlier, 0 for inlier
+* \return 1 for outlier, 0 for inlier, or -EmlError on failure
 */
 int
 eml_elliptic_envelope_predict(const EmlEllipticEnvelope *self,
                             const float *features, int n_features,
                             float *out_dist)
 {
-    EML_PRECONDITION(n_features == self->n_features, EmlSizeMismatch);
+    EML_PRECONDITION(n_features == self->n_features, -EmlSizeMismatch);
 
     const float dist = \
         eml_mahalanobis_distance_squared(features, self->means, self->precision, n_features);
-- 
2.43.0


From faa75c9a89e1437606aa11dd96f68851a5418d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 27/55] fix: inline network code could not be generated, the
 activation was formatted as an integer

---
 emlearn/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index 8e06731..620666f 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -173,7 +173,7 @@ def c_generate_layer_data(activations, weights, biases, prefix : str,
         if include_constants:
             activation_name = format_name(layer_no, 'activation')
             activation_func = c_activation_function(l_act)
-            add_declaration(cgen.constant_declare(activation_name, activation_func))
+            add_declaration(cgen.constant_declare(activation_name, activation_func, dtype='EmlNetActivationFunction'))
 
         # bias
         biases_name = format_name(layer_no, 'biases') 
-- 
2.43.0


From 7413e31ec160393a70bf2c5d90b5d5005f20dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 28/55] fix: network converted with method inline saved and ran
 the loadable code

---
 emlearn/net.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index 620666f..1f3739d 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -101,13 +101,16 @@ class Wrapper:
             raise ValueError(f"Unsupported return_type of '{self.return_type}'")
  
 
-    def save(self, name=None, file=None, inference=['loadable']):
+    def save(self, name=None, file=None, inference=None):
         if name is None:
             if file is None:
                 raise ValueError('Either name or file must be provided')
             else:
                 name = os.path.splitext(os.path.basename(file))[0]
 
+        if inference is None:
+            inference = [self.inference_type]
+
         if ('loadable' in inference) and ('inline' in inference):
             raise ValueError("Specify either 'loadable' or 'inline' inference. Both together is not supported")
 
-- 
2.43.0


From ea0197a3012baa76c8d450655f660b969e2899a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 29/55] fix: Hann window of a single point gave NaN

---
 emlearn/eml_vector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/eml_vector.h b/emlearn/eml_vector.h
index 93de5fa..ae8ca2f 100644
--- a/emlearn/eml_vector.h
+++ b/emlearn/eml_vector.h
@@ -64,6 +64,10 @@ eml_signal_mean(float *data, int length)
 EmlError
 eml_signal_hann_apply(float *data, int length)
 {
+    if (length == 1) {
+        // A window of a single point is 1
+        return EmlOk;
+    }
     for (int i=0; i<length; i++) {
         float m = (float)(0.5 * (1 - cos(2*M_PI*i/(length-1))));
         data[i] = m * data[i];
-- 
2.43.0


From f5c6fc88dc2ac844ff7cc4e25abaa12cde246998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 30/55] fix: IIR filter check accepted arrays of wrapped
 lengths for very large stage counts

---
 emlearn/eml_iir.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_iir.h b/emlearn/eml_iir.h
index b9dc39d..9b25b1c 100644
--- a/emlearn/eml_iir.h
+++ b/emlearn/eml_iir.h
@@ -57,8 +57,8 @@ eml_iir_check(EmlIIR filter) {
     EML_PRECONDITION(filter.n_stages >= 1, EmlUninitialized);
     EML_PRECONDITION(filter.states, EmlUninitialized);
     EML_PRECONDITION(filter.coefficients, EmlUninitialized);
-    EML_PRECONDITION(filter.states_length == filter.n_stages*4, EmlSizeMismatch);
-    EML_PRECONDITION(filter.coefficients_length == filter.n_stages*6, EmlSizeMismatch);
+    EML_PRECONDITION(filter.states_length == (int64_t)filter.n_stages*4, EmlSizeMismatch);
+    EML_PRECONDITION(filter.coefficients_length == (int64_t)filter.n_stages*6, EmlSizeMismatch);
     return EmlOk;
 }
 
-- 
2.43.0


From ce471e0112683a101488cafef2c95e095c38bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 31/55] fix: mel filter gave full weight to a centre bin above
 the centre frequency

---
 emlearn/eml_audio.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index f0beb7a..f425ee9 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -114,7 +114,9 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
         float val = 0.0f;
         for (int k=left; k<=center; k++) {
             const float r = eml_audio_mel_center(mel, m-1) - eml_fft_freq(mel, k);
-            const float weight = eml_max(eml_min(-r/fdifflow, 1.0f), 0.0f);
+            // the center bin can be above the center frequency, and is then on the falling slope
+            const float rupper = eml_audio_mel_center(mel, m+1) - eml_fft_freq(mel, k);
+            const float weight = eml_max(eml_min(-r/fdifflow, rupper/fdiffupper), 0.0f);
             //if (m == 2) {
             //    fprintf(stderr, "k=%d wl=%f \n", k, weight);
             //}
-- 
2.43.0


From 84d30136e05a07782c6b3b37268814f2120314ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 32/55] fix: mel filter read past the spectrum when fmin is
 above fmax

---
 emlearn/eml_audio.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index f425ee9..14b633c 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -102,7 +102,8 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
         if (left < 0) {
             return EmlUnknownError;
         }
-        if (right >= max_bin) {
+        // the center can be above the right side, if fmin is above fmax
+        if (right >= max_bin || center >= max_bin) {
             return EmlUnknownError;
         }
 
-- 
2.43.0


From f371de179de066eda352f924eebeb74e5c61cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 33/55] fix: network prediction and regression dereferenced
 missing features or model

---
 emlearn/eml_net.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 9e4d9eb..87c0959 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -104,7 +104,7 @@ eml_net_argmax(const float *values, int32_t values_length) {
 
 static bool
 eml_net_valid(EmlNet *model) {
-    bool not_null = model->layers && model->activations1 && model->activations2;
+    bool not_null = model && model->layers && model->activations1 && model->activations2;
     return not_null && model->n_layers >= 1;
 }
 
@@ -249,6 +249,7 @@ EmlError
 eml_net_infer(EmlNet *model, const float *features, int32_t features_length)
 {
     EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
+    EML_PRECONDITION(features, EmlUninitialized);
     EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     EML_PRECONDITION(features_length == model->layers[0].n_inputs, EmlSizeMismatch);
     EML_PRECONDITION(model->activations_length >= eml_net_find_largest_layer(model), EmlSizeMismatch);
-- 
2.43.0


From 989d320d0f01fea00a313099d9f712cf41e098b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 34/55] fix: softmax over an output layer of negative size read
 outside its buffer

---
 emlearn/eml_net.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 87c0959..1b083b7 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -222,6 +222,8 @@ eml_net_layer_forward(const EmlNetLayer *layer,
                     const float *in, int32_t in_length,
                     float *out, int32_t out_length)
 {
+    EML_PRECONDITION(layer->n_inputs >= 0, EmlSizeMismatch);
+    EML_PRECONDITION(layer->n_outputs >= 0, EmlSizeMismatch);
     EML_PRECONDITION(in_length >= layer->n_inputs, EmlSizeMismatch);
     EML_PRECONDITION(out_length >= layer->n_outputs, EmlSizeMismatch);
     EML_PRECONDITION(layer->weights, EmlUninitialized);
-- 
2.43.0


From 7865894f188ee176dd00dd2945d1204f61ea40ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 35/55] fix: Keras activation layer replaced the activation its
 Dense layer already has

---
 emlearn/net.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/net.py b/emlearn/net.py
index 1f3739d..0c1a594 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -372,6 +372,10 @@ def convert_keras(model, method, **kwargs):
     def set_activation(activation):
         # merge dedicated Activation layers into the previous layer
         # TODO: maybe make activation a separate layer in our representation
+        if activation == 'identity':
+            return
+        if activations[-1] != 'identity':
+            raise NotImplementedError("Several activations after the same Dense layer not supported: '{}', '{}'".format(activations[-1], activation))
         activations[-1] = activation
 
     for i, l in enumerate(model.layers):
-- 
2.43.0


From cd14229f93a3783c6a2708756b9d57e045fa5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 36/55] fix: maximum value of Keras ReLU layers was ignored

---
 emlearn/net.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlearn/net.py b/emlearn/net.py
index 0c1a594..1ba8dc0 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -393,6 +393,7 @@ def convert_keras(model, method, **kwargs):
         elif layer_type == 'ReLU':
             assert l.negative_slope == 0.0, 'ReLU.negative_slope must be 0.0'
             assert l.threshold == 0.0, 'ReLU.threshold must be 0.0'
+            assert l.max_value is None, 'ReLU.max_value must be None'
             set_activation('relu')
             continue
         elif layer_type == 'Softmax':
-- 
2.43.0


From f2399b5bba78039683b5a1239f2ec0483728f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 37/55] fix: softmax of large values did not sum to one

---
 emlearn/eml_net.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 1b083b7..d6a27fa 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -76,12 +76,12 @@ eml_net_softmax(float *input, size_t input_length)
 
     float sum = 0.0f;
     for (size_t i = 0; i < input_length; i++) {
-        sum += expf(input[i] - input_max);
+        input[i] = expf(input[i] - input_max);
+        sum += input[i];
     }
 
-    const float offset = input_max + logf(sum);
     for (size_t i = 0; i < input_length; i++) {
-        input[i] = expf(input[i] - offset);
+        input[i] = input[i] / sum;
     }
 
     return EmlOk;
-- 
2.43.0


From f52e68f5d8934264904a6f1511428000f33a521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:47 +0000
Subject: [PATCH 38/55] fix: saving an inline tree model as loadable truncated
 features and thresholds

---
 emlearn/trees.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 2a8eee2..ad5c1f4 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -615,13 +615,21 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
 
 
 def generate_c_loadable(forest, name, n_features,
-        weight_modifiers='static const', dtype='float',
+        weight_modifiers='static const', dtype='int16_t',
         classifier=True, n_classes=0, leaf_bits=0, include_proba=True):
 
     nodes, roots, leaves = forest
 
     cgen.assert_valid_identifier(name)
 
+    # EmlTrees uses int16_t for features and thresholds, and int8_t for number of features and classes
+    if dtype != 'int16_t':
+        raise ValueError("Loadable trees only support dtype='int16_t'. Use method='inline' for others")
+    if n_features > 127:
+        raise ValueError(f"Maximum features exceeded. features={n_features} max=127")
+    if n_classes > 127:
+        raise ValueError(f"Maximum classes exceeded. classes={n_classes} max=127")
+
     nodes_name = name+'_nodes'
     nodes_length = len(nodes)
     nodes_c = generate_c_nodes(nodes, nodes_name, dtype=dtype, modifiers=weight_modifiers)
-- 
2.43.0


From 29a01eac386ee745860fa03db944d7b913346ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:29 +0000
Subject: [PATCH 39/55] fix: numbers passed to and from compiled models lost
 their precision, and long rows were split

---
 emlearn/common.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 58a7983..d9f19e4 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -75,6 +75,8 @@ def build_classifier(cmodel, name, temp_dir,
     if n_classes:
         code = """
         #include "{def_file_name}"
+        #define EML_CSV_BUFFER_LENGTH (256*1024)
+        #define EML_CSV_VALUES_LENGTH (10*1024)
         #include <eml_test.h>
 
         #define N_CLASSES {n_classes}
@@ -84,7 +86,7 @@ def build_classifier(cmodel, name, temp_dir,
             {func}; // TODO: handle error
             for (int class_no=0; class_no<N_CLASSES; class_no++) {{
                 const float prob = outputs[class_no];
-                printf("%d,%d,%f\\n", row, class_no, (double)prob);
+                printf("%d,%d,%.9g\\n", row, class_no, (double)prob);
             }}
         }}
         int main() {{
@@ -95,10 +97,12 @@ def build_classifier(cmodel, name, temp_dir,
         # Trivial program that reads values on stdin, and returns classifications on stdout
         code = """
         #include "{def_file_name}"
+        #define EML_CSV_BUFFER_LENGTH (256*1024)
+        #define EML_CSV_VALUES_LENGTH (10*1024)
         #include <eml_test.h>
 
         static void classify(const float *values, int length, int row) {{
-            printf("%d,%f\\n", row, (double){func});
+            printf("%d,%.9g\\n", row, (double){func});
         }}
         int main() {{
             {test_function}(stdin, classify);
@@ -118,11 +122,11 @@ def build_classifier(cmodel, name, temp_dir,
 
     return bin_path
 
-def run_classifier(bin_path, data, out_dtype='int', float_precision=8):
+def run_classifier(bin_path, data, out_dtype='int', float_precision=17):
 
     # Serialize input data as CSV
     def serialize_value(v):
-        return '{:.{prec}f}'.format(v, prec=float_precision)
+        return '{:.{prec}g}'.format(v, prec=float_precision)
 
     lines = []
     for row in data:
-- 
2.43.0


From 68f55bd0c5c3ee5751729e745b9744d0ad4b0a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:29 +0000
Subject: [PATCH 40/55] fix: predict_proba returned uninitialised values when
 the program gave fewer answers

---
 emlearn/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index d9f19e4..de65f4d 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -201,11 +201,11 @@ class CompiledClassifier():
             return int(row), int(cls), float(prob)
 
         result = run_classifier(self.proba_bin_path, X, out_dtype=convert_out)
+        assert len(result) == len(X) * self.n_classes, len(result)
         out = numpy.empty(shape=(len(X), self.n_classes))
         for i, (row, cls, prob) in enumerate(result):
             out[row][cls] = prob
 
-        assert len(out) == len(X), out
         return out
 
     def regress(self, X):
-- 
2.43.0


From 3c92a4aae31f5b7599d4e5ee80606c55b863d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:29 +0000
Subject: [PATCH 41/55] fix: errors of the bindings were thrown as pointers,
 and lost their message

---
 bindings/emlpy_common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/emlpy_common.hpp b/bindings/emlpy_common.hpp
index a406299..cd76075 100644
--- a/bindings/emlpy_common.hpp
+++ b/bindings/emlpy_common.hpp
@@ -37,7 +37,7 @@ public:
 #define EMLPY_PRECONDITION(expr, msg) \
     do { \
         if (!(expr)) { \
-            throw new emlpy::PreconditionFailed(msg); \
+            throw emlpy::PreconditionFailed(msg); \
         } \
     } while (0);
 
@@ -46,7 +46,7 @@ public:
     do { \
         const EmlError _e = (expr); \
         if (_e != EmlOk) { \
-            throw new emlpy::Error(_e); \
+            throw emlpy::Error(_e); \
         } \
     } while (0);
 
-- 
2.43.0


From 69ba2670d4a13e1aeb6748d0263bf3d361e07f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:29 +0000
Subject: [PATCH 42/55] fix: iirfilter read outside of coefficients that do not
 have 6 columns

---
 bindings/eml_signal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/eml_signal.cpp b/bindings/eml_signal.cpp
index 980085d..9d0f0ad 100644
--- a/bindings/eml_signal.cpp
+++ b/bindings/eml_signal.cpp
@@ -21,6 +21,7 @@ iirfilter_py(py::array_t<float, py::array::c_style | py::array::forcecast> sos,
 
 {
     EMLPY_PRECONDITION(sos.ndim() == 2, "SOS coefficients must have dimensions 2");
+    EMLPY_PRECONDITION(sos.shape(1) == 6, "SOS coefficients must have 6 columns");
     EMLPY_PRECONDITION(data.ndim() == 1, "data must have dimensions 1");
 
     const int n_stages = (int)sos.shape(0);
-- 
2.43.0


From 5528daf2442b0bf083314cbee660ac0c33d3a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:43 +0000
Subject: [PATCH 43/55] fix: sparse_filterbank accessed elements outside of its
 inputs

---
 bindings/eml_audio.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bindings/eml_audio.cpp b/bindings/eml_audio.cpp
index 430007e..f5c73df 100644
--- a/bindings/eml_audio.cpp
+++ b/bindings/eml_audio.cpp
@@ -147,6 +147,19 @@ sparse_filterbank_py(py::array_t<float, py::array::c_style | py::array::forcecas
     EMLPY_PRECONDITION(starts.shape(0) == stops.shape(0), "Number of starts must equals stops");
 
     const int output_length = (int)starts.shape(0);
+
+    // The filters must be inside the input, and have coefficients for all their elements
+    py::ssize_t n_coeffs = 0;
+    for (int i=0; i<output_length; i++) {
+        const int start = starts.data()[i];
+        const int stop = stops.data()[i];
+        if (start <= stop) {
+            EMLPY_PRECONDITION(start >= 0 && stop < in.shape(0), "Filters must be inside input");
+            n_coeffs += (py::ssize_t)stop - start + 1;
+        }
+    }
+    EMLPY_PRECONDITION(n_coeffs <= coeffs.shape(0), "Not enough coefficients for filters");
+
     auto ret = py::array_t<float>(output_length);
 
     EMLPY_CHECK_ERROR(eml_sparse_filterbank(in.data(),
-- 
2.43.0


From 3aef1ea38dc714ef4116231b2a203c68897dc7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:16 +0000
Subject: [PATCH 44/55] fix: melspectrogram wrote outside of its buffers with
 more bands than samples

---
 emlearn/eml_audio.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index 14b633c..e2a8421 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -157,6 +157,9 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     const int n_fft = mel_params.n_fft;
     const int s_length = 1+n_fft/2;
     const int n_mels = mel_params.n_mels;
+
+    EML_PRECONDITION(n_mels <= inout.length, EmlSizeMismatch);
+    EML_PRECONDITION(s_length <= temp.length, EmlSizeMismatch);
  
     // Apply window
     EML_CHECK_ERROR(eml_signal_hann_apply(inout.data, inout.length));
-- 
2.43.0


From 20af70c9754302a745fa8cacd9d61551f0706a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:13 +0000
Subject: [PATCH 45/55] fix: eml_neighbors_check takes data lengths of more
 than 16 bits

---
 emlearn/eml_neighbors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index 55ad888..8c01bdc 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -107,7 +107,7 @@ typedef struct _EmlNeighborsModel {
 
 EmlError
 eml_neighbors_check(EmlNeighborsModel *self,
-        int16_t data_length, int16_t labels_length, int16_t distances_length)
+        int32_t data_length, int16_t labels_length, int16_t distances_length)
 {
     const int32_t expect_data_length = self->max_items * self->n_features;
     if (data_length < expect_data_length) {
-- 
2.43.0


From 3908711c87179c90984168e887d5e086ddb1e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:20 +0000
Subject: [PATCH 46/55] fix: nearest neighbors conversion refuses values that
 do not fit in int16_t

---
 emlearn/neighbors.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 42368c2..3726a7b 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -147,6 +147,14 @@ def c_generate_neighbors(data, labels, n_neighbors, prefix,
     assert len(labels.shape) == 1, labels.shape
     labels_name = prefix+'_labels'
 
+    # everything is stored as int16_t
+    limits = numpy.iinfo(numpy.int16)
+    if n_items > limits.max:
+        raise ValueError(f'Too many items: {n_items}. Maximum: {limits.max}')
+    for what, values in (('Feature', data_values), ('Label', labels)):
+        if numpy.any(values < limits.min) or numpy.any(values > limits.max):
+            raise ValueError(f'{what} values must be within the range of int16_t. Scale or quantize the data first')
+
     max_items = n_items
 
     head_lines = [
-- 
2.43.0


From a325bf00f201a3ac313db6afdc9c1569122d6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:46 +0000
Subject: [PATCH 47/55] fix: eml_neighbors.h and eml_csv.h can be included more
 than once

---
 emlearn/eml_csv.h       | 4 ++++
 emlearn/eml_neighbors.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 45f8f2c..8b36247 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -4,6 +4,9 @@
 // Not intended to parse every wierd "csv" like thing out there
 // Just the well-formed thing, that can be produced from typical PyData etc tools
 
+#ifndef EML_CSV_H
+#define EML_CSV_H
+
 #include <eml_common.h>
 #include <eml_io.h>
 
@@ -227,3 +230,4 @@ eml_csv_reader_read_data(EmlCsvReader *self,
     return columns_read;
 }
 
+#endif // EML_CSV_H
diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index 8c01bdc..727d86c 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -9,6 +9,9 @@ Supports dynamic growth of the model data,
 in order to support on-device learning.
 */
 
+#ifndef EML_NEIGHBORS_H
+#define EML_NEIGHBORS_H
+
 #include <eml_common.h>
 #include <eml_log.h>
 #include <eml_qsort.h>
@@ -285,3 +288,4 @@ eml_neighbors_predict(EmlNeighborsModel *self,
     return EmlOk;
 }
 
+#endif // EML_NEIGHBORS_H
-- 
2.43.0


From 74e7ff5f3fb961949df30800124ae9e88e4b2b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:17 +0000
Subject: [PATCH 48/55] fix: eml-mel-filterbank: --htk and --normalize accept
 false values

---
 emlearn/tools/mel_filterbank.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/emlearn/tools/mel_filterbank.py b/emlearn/tools/mel_filterbank.py
index 25c0a80..0d3bee5 100644
--- a/emlearn/tools/mel_filterbank.py
+++ b/emlearn/tools/mel_filterbank.py
@@ -30,6 +30,16 @@ def mel_filterbank(args, name):
     return wrapped
 
 
+def parse_bool(text):
+    # bool('False') is True
+    lowered = text.strip().lower()
+    if lowered in ('true', 'yes', 'on', '1'):
+        return True
+    if lowered in ('false', 'no', 'off', '0', ''):
+        return False
+    raise argparse.ArgumentTypeError("Not a boolean: '{}'".format(text))
+
+
 def parse(args=None):
     parser = argparse.ArgumentParser(description='Generate filterbank for Mel spectrogram')
     a = parser.add_argument
@@ -45,9 +55,9 @@ def parse(args=None):
       help='Frequency of lowest band. Default: 0')
     a('--fmax', type=int, default=None,
       help='Frequency of highest band. Default: samplerate/2')
-    a('--htk', type=bool, default=False,
+    a('--htk', type=parse_bool, default=False,
       help='Use HTK style filter spacing')
-    a('--normalize', type=bool, default=True,
+    a('--normalize', type=parse_bool, default=True,
       help='Normalize to have constant energy per band')
 
     a('--name', type=str, default='',
-- 
2.43.0


From d29c43d059c0b405ee46cb29b0de43a67184cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:17 +0000
Subject: [PATCH 49/55] fix: tools: wrapping lines does not break long names
 and values

---
 emlearn/tools/mel_filterbank.py  | 3 ++-
 emlearn/tools/window_function.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlearn/tools/mel_filterbank.py b/emlearn/tools/mel_filterbank.py
index 0d3bee5..b090ed5 100644
--- a/emlearn/tools/mel_filterbank.py
+++ b/emlearn/tools/mel_filterbank.py
@@ -25,7 +25,8 @@ def mel_filterbank(args, name):
     gen = emlearn.signal.sparse_filterbank_serialize(sparse, name=name, frequencies=frequencies,
             n_fft=args.fft, sr=args.samplerate, fmin=args.fmin, fmax=fmax)
 
-    w = textwrap.wrap(gen, args.linewrap, replace_whitespace=False)
+    w = textwrap.wrap(gen, args.linewrap, replace_whitespace=False,
+                      break_long_words=False, break_on_hyphens=False)
     wrapped = '\n'.join(w)
     return wrapped
 
diff --git a/emlearn/tools/window_function.py b/emlearn/tools/window_function.py
index 679c1a7..a102f5d 100755
--- a/emlearn/tools/window_function.py
+++ b/emlearn/tools/window_function.py
@@ -46,7 +46,7 @@ def window_function(name, window_type, length, fft_mode, linewrap):
     ]
     gen = '\n'.join(arrays)
 
-    w = textwrap.wrap(gen, linewrap)
+    w = textwrap.wrap(gen, linewrap, break_long_words=False, break_on_hyphens=False)
     wrapped = '\n'.join(w)
     return wrapped
 
-- 
2.43.0


From 1c7486706337fb4745cb271573f4a4832dd85eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:17 +0000
Subject: [PATCH 50/55] fix: eml_trees_regress: log the output as a
 floating-point value

---
 emlearn/eml_trees.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index b89247c..3a7da96 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -289,7 +289,7 @@ eml_trees_regress(const EmlTrees *forest,
     out[0] = sum / forest->n_trees;
 
     EML_LOG_BEGIN("eml-trees-regress-end");
-    EML_LOG_ADD_INTEGER("output", out[0]);
+    EML_LOG_ADD_FLOAT("output", (double)out[0]);
     EML_LOG_END();
 
     return EmlOk;
-- 
2.43.0


From b616a821d597fbf6e50913710a9bbaeb49c85e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:17 +0000
Subject: [PATCH 51/55] fix: EML_LOG_ADD_ARRAY: separate key and value

---
 emlearn/eml_log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_log.h b/emlearn/eml_log.h
index f1ab773..a10f7b8 100644
--- a/emlearn/eml_log.h
+++ b/emlearn/eml_log.h
@@ -109,7 +109,7 @@ Add an array
 */
 #define EML_LOG_ADD_ARRAY(key, arr, len, fmt) \
 do { \
-    EML_LOG_PRINTF(" %s", key); \
+    EML_LOG_PRINTF(" %s=", key); \
     EML_LOG_PRINT_ARRAY(arr, len, fmt); \
 } while (0)
 
-- 
2.43.0


From 592961f27c812f94be61400629cd50d53b634c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:17 +0000
Subject: [PATCH 52/55] fix: trees: convert subclasses of regressors as
 regressors

---
 emlearn/trees.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index ad5c1f4..c701924 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -732,11 +732,12 @@ class Wrapper:
         if self.dtype is None:
             self.dtype = 'int16_t'
 
-        kind = type(estimator).__name__
+        # the model can be a subclass with another name
+        kinds = [ cls.__name__ for cls in type(estimator).__mro__ ]
         leaf = 'argmax'
         self.is_classifier = True
         self.out_dtype = "int"
-        if 'Regressor' in kind:
+        if any('Regressor' in kind for kind in kinds):
             leaf = 'value'
             self.is_classifier = False
             self.out_dtype = "float"
-- 
2.43.0


From 48eed7742294e19b7385a3312a01e356a4022eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:17 +0000
Subject: [PATCH 53/55] fix: distance: use the inline method when none is
 specified

---
 emlearn/distance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index c52f011..32042de 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -96,6 +96,9 @@ class Wrapper:
     def __init__(self, estimator, classifier='inline', dtype='float'):
         self.dtype = dtype
 
+        if classifier is None:
+            classifier = 'inline'
+
         precision = estimator.get_precision()
         self._means = estimator.location_.copy()
         self._precision = precision
-- 
2.43.0


From 6ad404895e971759eea835fddea7dfdfdecd6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:33 +0000
Subject: [PATCH 54/55] fix: bayes: do not change the error handling of NumPy
 when imported

---
 emlearn/bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 9bc8c2c..fb76357 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -5,7 +5,6 @@ Gaussian Naive Bayes
 """
 
 import numpy
-numpy.seterr(all='raise')
 
 from . import common, cgen
 
@@ -84,6 +83,7 @@ class Wrapper(object):
     """
     Python API for Bayes classifier implemented in C
     """
+    @numpy.errstate(all='raise')
     def __init__(self, estimator, method):
 
         # FIXME: use var,mean numpy arrays directly
-- 
2.43.0


From f258f870eca8676893acb64b45c32391aadb406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:48 +0000
Subject: [PATCH 55/55] fix: converted models of the same kind replaced each
 other's compiled program

The program was always built in the same file, so after converting a second
model the first one gave the predictions of the second.
---
 emlearn/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/common.py b/emlearn/common.py
index de65f4d..800be78 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -7,6 +7,7 @@ Utilities
 import os
 import sys
 import subprocess
+import hashlib
 import platform
 from distutils.ccompiler import new_compiler
 
@@ -40,6 +41,9 @@ def build_classifier(cmodel, name, temp_dir,
         warn_flags=None,
         warn_error=True,
         ):
+    # use a separate directory per program, so that different models with the same name do not replace each other
+    program_id = hashlib.sha1(repr((cmodel, func, test_function, n_classes)).encode('utf-8')).hexdigest()
+    temp_dir = os.path.join(temp_dir, name+'_'+program_id)
     if not os.path.exists(temp_dir):
         os.makedirs(temp_dir)
 
-- 
2.43.0

