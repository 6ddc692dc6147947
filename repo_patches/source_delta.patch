From 76afc4ff75364365c6d93749f73cf6a9615b9dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:16:55 +0000
Subject: [PATCH 01/66] fix: NLMS update divides by zero when the input and x0
 are all zero

---
 xcsf/pred_nlms.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcsf/pred_nlms.c b/xcsf/pred_nlms.c
index d642b65..ec5d8fa 100644
--- a/xcsf/pred_nlms.c
+++ b/xcsf/pred_nlms.c
@@ -120,6 +120,9 @@ pred_nlms_update(const struct XCSF *xcsf, const struct Cl *c, const double *x,
     const int n = pred->n;
     const double X0 = xcsf->pred->x0;
     const double norm = X0 * X0 + blas_dot(xcsf->x_dim, x, 1, x, 1);
+    if (norm <= 0) { // all features are zero: there is nothing to adjust
+        return;
+    }
     // update weights using the error
     for (int i = 0; i < xcsf->y_dim; ++i) {
         const double error = y[i] - c->prediction[i];
-- 
2.43.0


From 7f83f734d1fc9bfa9f5d5b8f5309e73b42d23b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:12 +0000
Subject: [PATCH 02/66] fix: 1x1 convolution ignores stride and padding

---
 xcsf/neural_layer_convolutional.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xcsf/neural_layer_convolutional.c b/xcsf/neural_layer_convolutional.c
index 0161341..bb1845e 100644
--- a/xcsf/neural_layer_convolutional.c
+++ b/xcsf/neural_layer_convolutional.c
@@ -64,6 +64,17 @@ get_out_width(const struct Layer *l)
     return (l->width + 2 * l->pad - l->size) / l->stride + 1;
 }
 
+/**
+ * @brief Returns whether the input image can be used directly as columns.
+ * @param [in] l A convolutional layer.
+ * @return Whether the kernel visits every input pixel exactly once, in order.
+ */
+static bool
+is_pointwise(const struct Layer *l)
+{
+    return l->size == 1 && l->stride == 1 && l->pad == 0;
+}
+
 /**
  * @brief Returns the memory workspace size for a convolutional layer.
  * @param [in] l A convolutional layer.
@@ -270,7 +281,7 @@ neural_layer_convolutional_forward(const struct Layer *l, const struct Net *net,
     double *b = l->temp;
     double *c = l->state;
     memset(l->state, 0, sizeof(double) * l->n_outputs);
-    if (l->size == 1) {
+    if (is_pointwise(l)) {
         blas_gemm(0, 0, m, n, k, 1, a, k, input, n, 1, c, n);
     } else {
         im2col(input, l->channels, l->height, l->width, l->size, l->stride,
@@ -309,7 +320,7 @@ neural_layer_convolutional_backward(const struct Layer *l,
         const double *a = l->delta;
         double *b = l->temp;
         double *c = l->weight_updates;
-        if (l->size == 1) {
+        if (is_pointwise(l)) {
             blas_gemm(0, 1, m, n, k, 1, a, k, input, k, 1, c, n);
         } else {
             im2col(input, l->channels, l->height, l->width, l->size, l->stride,
@@ -321,11 +332,11 @@ neural_layer_convolutional_backward(const struct Layer *l,
         const double *a = l->weights;
         const double *b = l->delta;
         double *c = l->temp;
-        if (l->size == 1) {
+        if (is_pointwise(l)) {
             c = delta;
         }
         blas_gemm(1, 0, n, k, m, 1, a, n, b, k, 0, c, k);
-        if (l->size != 1) {
+        if (!is_pointwise(l)) {
             col2im(l->temp, l->channels, l->height, l->width, l->size,
                    l->stride, l->pad, delta);
         }
-- 
2.43.0


From b9809c28a6b9e62fcf3aa553e21595b39d1a5c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:12 +0000
Subject: [PATCH 03/66] fix: convolutional layer without SGD skips the
 activation gradient

---
 xcsf/neural_layer_convolutional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural_layer_convolutional.c b/xcsf/neural_layer_convolutional.c
index bb1845e..d17efd3 100644
--- a/xcsf/neural_layer_convolutional.c
+++ b/xcsf/neural_layer_convolutional.c
@@ -312,8 +312,8 @@ neural_layer_convolutional_backward(const struct Layer *l,
     const int m = l->n_filters;
     const int n = l->size * l->size * l->channels;
     const int k = l->out_w * l->out_h;
+    neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
     if (l->options & LAYER_SGD_WEIGHTS) {
-        neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
         for (int i = 0; i < l->n_biases; ++i) {
             l->bias_updates[i] += blas_sum(l->delta + k * i, k);
         }
-- 
2.43.0


From d3b95d06ac80a4302faccd6f1699e924359b8fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:12 +0000
Subject: [PATCH 04/66] fix: inserting a layer before the input layer
 dereferences NULL

---
 xcsf/neural.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index d345b6e..d695ff1 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -120,7 +120,7 @@ neural_insert(struct Net *net, struct Layer *l, const int pos)
         } else {
             new->next = iter->next;
             iter->next = new;
-            if (iter->next == NULL) { // new tail
+            if (new->next == NULL) { // new tail
                 net->tail = new;
                 net->n_inputs = l->n_inputs;
             } else { // middle
-- 
2.43.0


From 20aaf6f97c061314368be53f5b970be11fe62cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:12 +0000
Subject: [PATCH 05/66] fix: removing the input layer leaves a stale number of
 inputs

---
 xcsf/neural.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index d695ff1..b02ff19 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -165,6 +165,7 @@ neural_remove(struct Net *net, const int pos)
         net->tail = iter->prev;
         if (iter->prev != NULL) {
             iter->prev->next = NULL;
+            net->n_inputs = iter->prev->layer->n_inputs;
         }
     }
     // middle
-- 
2.43.0


From 37d30f5bd7423b0588bdd489c79bdfa215689e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:12 +0000
Subject: [PATCH 06/66] fix: growing a connected layer leaves a stale output
 width

---
 xcsf/neural_layer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/neural_layer.c b/xcsf/neural_layer.c
index d357300..5d22e2c 100644
--- a/xcsf/neural_layer.c
+++ b/xcsf/neural_layer.c
@@ -132,6 +132,7 @@ layer_add_neurons(struct Layer *l, const int N)
     const int old_n_outputs = l->n_outputs;
     const int old_n_weights = l->n_weights;
     l->n_outputs += N;
+    l->out_w = l->n_outputs;
     l->n_biases = l->n_outputs;
     l->n_weights = l->n_outputs * l->n_inputs;
     layer_guard_outputs(l);
-- 
2.43.0


From ed999223c9f0cea3a34725d978e6b641fb147127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:38 +0000
Subject: [PATCH 07/66] fix: loaded recurrent layers have no output

---
 xcsf/neural_layer_recurrent.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index abcf415..c2940ce 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -538,5 +538,9 @@ neural_layer_recurrent_load(struct Layer *l, FILE *fp)
     s += layer_load(l->input_layer, fp);
     s += layer_load(l->self_layer, fp);
     s += layer_load(l->output_layer, fp);
+    l->output = l->output_layer->output;
+    l->delta = l->output_layer->delta;
+    set_layer_n_weights(l);
+    set_layer_n_biases(l);
     return s;
 }
-- 
2.43.0


From 9e2eee358ea8d1365d443b7c1db92b3a8e453ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:38 +0000
Subject: [PATCH 08/66] fix: mutating the learning rate of a recurrent layer
 sets it to zero

---
 xcsf/neural_layer_recurrent.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index c2940ce..1f65157 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -133,8 +133,9 @@ set_layer_n_biases(struct Layer *l)
 static bool
 mutate_eta(struct Layer *l)
 {
-    if ((l->options & LAYER_EVOLVE_ETA) && layer_mutate_eta(l, l->mu[0])) {
-        l->input_layer->eta = l->eta;
+    if ((l->options & LAYER_EVOLVE_ETA) &&
+        layer_mutate_eta(l->input_layer, l->mu[0])) {
+        l->eta = l->input_layer->eta;
         l->self_layer->eta = l->eta;
         l->output_layer->eta = l->eta;
         return true;
-- 
2.43.0


From ef671c9823cddf3ac5121413f61262ae152d82ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:38 +0000
Subject: [PATCH 09/66] fix: recurrent layers use uninitialised state after
 adding neurons

---
 xcsf/neural_layer_recurrent.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index 1f65157..424f5f3 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -166,6 +166,10 @@ mutate_neurons(struct Layer *l)
             l->output = l->output_layer->output;
             l->delta = l->output_layer->delta;
             realloc_layer_arrays(l);
+            for (int i = l->n_outputs - n; i < l->n_outputs; ++i) {
+                l->state[i] = 0;
+                l->prev_state[i] = 0;
+            }
             set_layer_n_weights(l);
             set_layer_n_biases(l);
             set_layer_n_active(l);
-- 
2.43.0


From 6da9b9f327cf2f5ae62c512a45ac9f9bde075ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:38 +0000
Subject: [PATCH 10/66] fix: recurrent layers lose their weight counts when
 copied or resized

---
 xcsf/neural_layer_recurrent.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index 424f5f3..e305adb 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -304,6 +304,8 @@ neural_layer_recurrent_copy(const struct Layer *src)
     l->out_c = src->out_c;
     l->out_h = src->out_h;
     l->n_active = src->n_active;
+    l->n_weights = src->n_weights;
+    l->n_biases = src->n_biases;
     l->eta = src->eta;
     l->input_layer = layer_copy(src->input_layer);
     l->self_layer = layer_copy(src->self_layer);
@@ -406,8 +408,8 @@ neural_layer_recurrent_resize(struct Layer *l, const struct Layer *prev)
 {
     layer_resize(l->input_layer, prev);
     l->n_inputs = l->input_layer->n_inputs;
-    l->n_active = l->input_layer->n_active + l->self_layer->n_active +
-        l->output_layer->n_active;
+    set_layer_n_weights(l);
+    set_layer_n_active(l);
 }
 
 /**
-- 
2.43.0


From 4d8ecc54d8caf4fd5081a0f4d071570ccbdb5c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:38 +0000
Subject: [PATCH 11/66] fix: recurrent layers lose their memory when saved

---
 xcsf/neural_layer_recurrent.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index e305adb..46e398c 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -511,6 +511,7 @@ neural_layer_recurrent_save(const struct Layer *l, FILE *fp)
     s += fwrite(l->mu, sizeof(double), N_MU, fp);
     s += fwrite(l->state, sizeof(double), l->n_outputs, fp);
     s += fwrite(l->prev_state, sizeof(double), l->n_outputs, fp);
+    s += fwrite(l->output, sizeof(double), l->n_outputs, fp);
     s += layer_save(l->input_layer, fp);
     s += layer_save(l->self_layer, fp);
     s += layer_save(l->output_layer, fp);
@@ -541,12 +542,16 @@ neural_layer_recurrent_load(struct Layer *l, FILE *fp)
     s += fread(l->mu, sizeof(double), N_MU, fp);
     s += fread(l->state, sizeof(double), l->n_outputs, fp);
     s += fread(l->prev_state, sizeof(double), l->n_outputs, fp);
+    double *output = malloc(sizeof(double) * l->n_outputs);
+    s += fread(output, sizeof(double), l->n_outputs, fp);
     malloc_layers(l);
     s += layer_load(l->input_layer, fp);
     s += layer_load(l->self_layer, fp);
     s += layer_load(l->output_layer, fp);
     l->output = l->output_layer->output;
     l->delta = l->output_layer->delta;
+    memcpy(l->output, output, sizeof(double) * l->n_outputs);
+    free(output);
     set_layer_n_weights(l);
     set_layer_n_biases(l);
     return s;
-- 
2.43.0


From b62cc172a7d3e63437342cc90cbcabd16525945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:38 +0000
Subject: [PATCH 12/66] fix: LSTM activation functions are not saved

---
 xcsf/neural_layer_lstm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_lstm.c b/xcsf/neural_layer_lstm.c
index 86f32c1..ef35e33 100644
--- a/xcsf/neural_layer_lstm.c
+++ b/xcsf/neural_layer_lstm.c
@@ -674,6 +674,8 @@ neural_layer_lstm_save(const struct Layer *l, FILE *fp)
     s += fwrite(&l->decay, sizeof(double), 1, fp);
     s += fwrite(&l->max_neuron_grow, sizeof(int), 1, fp);
     s += fwrite(&l->options, sizeof(uint32_t), 1, fp);
+    s += fwrite(&l->function, sizeof(int), 1, fp);
+    s += fwrite(&l->recurrent_function, sizeof(int), 1, fp);
     s += fwrite(l->mu, sizeof(double), N_MU, fp);
     s += fwrite(l->state, sizeof(double), l->n_outputs, fp);
     s += fwrite(l->prev_state, sizeof(double), l->n_outputs, fp);
@@ -721,6 +723,8 @@ neural_layer_lstm_load(struct Layer *l, FILE *fp)
     s += fread(&l->decay, sizeof(double), 1, fp);
     s += fread(&l->max_neuron_grow, sizeof(int), 1, fp);
     s += fread(&l->options, sizeof(uint32_t), 1, fp);
+    s += fread(&l->function, sizeof(int), 1, fp);
+    s += fread(&l->recurrent_function, sizeof(int), 1, fp);
     l->out_w = l->n_outputs;
     l->out_c = 1;
     l->out_h = 1;
-- 
2.43.0


From e71667184a4ef8c3d133c5b9f95604910818da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:18 +0000
Subject: [PATCH 13/66] fix: covering DGP and neural rules must match and
 advocate the action

---
 xcsf/rule_dgp.c    | 2 +-
 xcsf/rule_neural.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/rule_dgp.c b/xcsf/rule_dgp.c
index e7b77d1..a350d49 100644
--- a/xcsf/rule_dgp.c
+++ b/xcsf/rule_dgp.c
@@ -221,7 +221,7 @@ rule_dgp_act_cover(const struct XCSF *xcsf, const struct Cl *c, const double *x,
     struct RuleDGP *cond = c->cond;
     do {
         graph_rand(&cond->dgp);
-    } while (!rule_dgp_cond_match(xcsf, c, x) &&
+    } while (!rule_dgp_cond_match(xcsf, c, x) ||
              rule_dgp_act_compute(xcsf, c, x) != action);
 }
 
diff --git a/xcsf/rule_neural.c b/xcsf/rule_neural.c
index 9618332..633177a 100644
--- a/xcsf/rule_neural.c
+++ b/xcsf/rule_neural.c
@@ -230,7 +230,7 @@ rule_neural_act_cover(const struct XCSF *xcsf, const struct Cl *c,
     const struct RuleNeural *cond = c->cond;
     do {
         neural_rand(&cond->net);
-    } while (!rule_neural_cond_match(xcsf, c, x) &&
+    } while (!rule_neural_cond_match(xcsf, c, x) ||
              rule_neural_act_compute(xcsf, c, x) != action);
 }
 
-- 
2.43.0


From 28e1f575f2dee788a82f8e031f2d1041906185a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:41 +0000
Subject: [PATCH 14/66] fix: ellipsoid generality must test every axis unless
 concentric

An axis with equal center and spread was skipped even when the ellipsoids
are offset along another axis, in which case the extreme points of the
skipped axis lie outside, so a rule could subsume one it does not contain.
---
 xcsf/cond_ellipsoid.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xcsf/cond_ellipsoid.c b/xcsf/cond_ellipsoid.c
index 87ea417..4a66846 100644
--- a/xcsf/cond_ellipsoid.c
+++ b/xcsf/cond_ellipsoid.c
@@ -245,9 +245,14 @@ cond_ellipsoid_general(const struct XCSF *xcsf, const struct Cl *c1,
     const struct CondEllipsoid *cond2 = c2->cond;
     double *temp = malloc(sizeof(double) * xcsf->x_dim);
     memcpy(temp, cond2->center, sizeof(double) * xcsf->x_dim);
+    bool concentric = true;
     for (int i = 0; i < xcsf->x_dim; ++i) {
-        if (cond1->center[i] != cond2->center[i] ||
-            cond1->spread[i] != cond2->spread[i]) {
+        if (cond1->center[i] != cond2->center[i]) {
+            concentric = false;
+        }
+    }
+    for (int i = 0; i < xcsf->x_dim; ++i) {
+        if (!concentric || cond1->spread[i] != cond2->spread[i]) {
             temp[i] += cond2->spread[i];
             if (cond_ellipsoid_dist(xcsf, c1, temp) > 1) {
                 free(temp);
-- 
2.43.0


From fe328834885ff504be95bf859b846f6cedc8781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:01 +0000
Subject: [PATCH 15/66] fix: DGP cycle mutation reports a change only when t
 changes

---
 xcsf/dgp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 27190e6..4f4d57b 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -115,7 +115,7 @@ graph_mutate_cycles(struct Graph *dgp)
         return false;
     }
     dgp->t += n;
-    return true;
+    return n != 0;
 }
 
 /**
-- 
2.43.0


From cd57a2c60e0589a539b094f8b8675e804c9948fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:31 +0000
Subject: [PATCH 16/66] fix: randomising LSTM and recurrent layers leaves a
 stale active count

---
 xcsf/neural_layer_lstm.c      | 1 +
 xcsf/neural_layer_recurrent.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/xcsf/neural_layer_lstm.c b/xcsf/neural_layer_lstm.c
index ef35e33..791d18a 100644
--- a/xcsf/neural_layer_lstm.c
+++ b/xcsf/neural_layer_lstm.c
@@ -407,6 +407,7 @@ neural_layer_lstm_rand(struct Layer *l)
     layer_rand(l->wi);
     layer_rand(l->wg);
     layer_rand(l->wo);
+    set_layer_n_active(l);
 }
 
 /**
diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index 46e398c..785187b 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -344,6 +344,7 @@ neural_layer_recurrent_rand(struct Layer *l)
     layer_rand(l->input_layer);
     layer_rand(l->self_layer);
     layer_rand(l->output_layer);
+    set_layer_n_active(l);
 }
 
 /**
-- 
2.43.0


From e3f5d89fa65a5f74b01e9334cc418ff0b842f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:08 +0000
Subject: [PATCH 17/66] fix: loading a model leaves the prediction array at its
 old size

---
 xcsf/xcsf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 7873924..92d1ff2 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -137,6 +137,10 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
         exit(EXIT_FAILURE);
     }
     s += param_load(xcsf, fp);
+    if (xcsf->pa_size != xcsf->n_actions * xcsf->y_dim) {
+        pa_free(xcsf);
+        pa_init(xcsf);
+    }
     s += clset_pset_load(xcsf, fp);
     fclose(fp);
     return s;
-- 
2.43.0


From f6e904d93c16859e1ce267f7ca7a9378d189c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:19 +0000
Subject: [PATCH 18/66] fix: loading GP constants overflows a smaller constant
 array

---
 xcsf/gp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index e558a49..456aba3 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -527,6 +527,8 @@ tree_args_load(struct ArgsGPTree *args, FILE *fp)
     s += fread(&args->n_constants, sizeof(int), 1, fp);
     s += fread(&args->init_depth, sizeof(int), 1, fp);
     s += fread(&args->max_len, sizeof(int), 1, fp);
+    free(args->constants);
+    args->constants = malloc(sizeof(double) * args->n_constants);
     s += fread(args->constants, sizeof(double), args->n_constants, fp);
     return s;
 }
-- 
2.43.0


From 724ad853dd2a339174af7163307a0b1e79222564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:30 +0000
Subject: [PATCH 19/66] fix: stored populations lose their current predictions

---
 xcsf/cl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/cl.c b/xcsf/cl.c
index 7fa9e44..95352c0 100644
--- a/xcsf/cl.c
+++ b/xcsf/cl.c
@@ -84,6 +84,7 @@ void
 cl_init_copy(const struct XCSF *xcsf, struct Cl *dest, const struct Cl *src)
 {
     dest->prediction = calloc(xcsf->y_dim, sizeof(double));
+    memcpy(dest->prediction, src->prediction, sizeof(double) * xcsf->y_dim);
     dest->fit = src->fit;
     dest->err = src->err;
     dest->num = src->num;
-- 
2.43.0


From 92b341aaf286bfd7f5518eb70ee02526c5d69bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:41 +0000
Subject: [PATCH 20/66] fix: overlong population file name is not terminated

---
 xcsf/param.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/param.c b/xcsf/param.c
index 5c536b9..0e5fed1 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -642,6 +642,7 @@ param_set_population_file(struct XCSF *xcsf, const char *a)
     size_t length = strnlen(a, sizeof(char) * MAX_LEN) + 1;
     xcsf->population_file = malloc(sizeof(char) * length);
     strncpy(xcsf->population_file, a, length);
+    xcsf->population_file[length - 1] = '\0';
     return NULL;
 }
 
-- 
2.43.0


From b5f207c4f4f95ab387e8e624757d604ebbc68319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:59 +0000
Subject: [PATCH 21/66] fix: dropout applies a stale mask when learning without
 exploring

---
 xcsf/neural_layer_dropout.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural_layer_dropout.c b/xcsf/neural_layer_dropout.c
index 79755c0..29033a8 100644
--- a/xcsf/neural_layer_dropout.c
+++ b/xcsf/neural_layer_dropout.c
@@ -152,11 +152,12 @@ void
 neural_layer_dropout_backward(const struct Layer *l, const struct Net *net,
                               const double *input, double *delta)
 {
-    (void) net;
     (void) input;
     if (delta) {
         for (int i = 0; i < l->n_inputs; ++i) {
-            if (l->state[i] < l->probability) {
+            if (!net->train) {
+                delta[i] += l->delta[i];
+            } else if (l->state[i] < l->probability) {
                 delta[i] = 0;
             } else {
                 delta[i] += l->delta[i] * l->scale;
-- 
2.43.0


From 67060d4021b6cd6c55dd16ed3d9453bdd0173453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:34 +0000
Subject: [PATCH 22/66] fix: parallel matching evaluates the action of rules
 that do not match

---
 xcsf/clset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index fb03cf0..78d399e 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -366,8 +366,9 @@ clset_match(struct XCSF *xcsf, const double *x, const bool cover)
     // process conditions and actions setting m flags in parallel
     #pragma omp parallel for
     for (int i = 0; i < xcsf->pset.size; ++i) {
-        cl_match(xcsf, blist[i]->cl, x);
-        cl_action(xcsf, blist[i]->cl, x);
+        if (cl_match(xcsf, blist[i]->cl, x)) {
+            cl_action(xcsf, blist[i]->cl, x);
+        }
     }
     // build match set list in series
     for (int i = 0; i < xcsf->pset.size; ++i) {
-- 
2.43.0


From c7afd9d1932b3462b5571845e9501a596c2a2bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:20 +0000
Subject: [PATCH 23/66] fix: final reward update uses predictions for the
 previous state

---
 xcsf/xcs_rl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcsf/xcs_rl.c b/xcsf/xcs_rl.c
index 2b4e18d..e42c2ff 100644
--- a/xcsf/xcs_rl.c
+++ b/xcsf/xcs_rl.c
@@ -192,18 +192,20 @@ void
 xcs_rl_update(struct XCSF *xcsf, const double *state, const int action,
               const double reward, const bool done)
 {
+    bool cur = true; // whether the rule predictions are for the current state
     clset_action(xcsf, action); // create action set
     if (xcsf->prev_aset.list != NULL) { // update previous action set and run EA
         const double p = xcsf->prev_reward + (xcsf->GAMMA * pa_best_val(xcsf));
         clset_validate(&xcsf->prev_aset);
         clset_update(xcsf, &xcsf->prev_aset, xcsf->prev_state, &p, false);
+        cur = false;
         if (xcsf->explore) {
             ea(xcsf, &xcsf->prev_aset);
         }
     }
     if (done) { // in terminal state: update current action set and run EA
         clset_validate(&xcsf->aset);
-        clset_update(xcsf, &xcsf->aset, state, &reward, true);
+        clset_update(xcsf, &xcsf->aset, state, &reward, cur);
         if (xcsf->explore) {
             ea(xcsf, &xcsf->aset);
         }
-- 
2.43.0


From 1d24bc496292f8bee6ac0044e91c67bbeb789eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 24/66] fix: csv rows longer than 200 characters are split into
 several

---
 xcsf/env_csv.c | 67 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/xcsf/env_csv.c b/xcsf/env_csv.c
index 166bf42..0d2c983 100644
--- a/xcsf/env_csv.c
+++ b/xcsf/env_csv.c
@@ -25,10 +25,41 @@
 #include "param.h"
 
 #define MAX_ROWS (100000) //!< Maximum number of instances
-#define MAX_COLS (200) //!< Maximum line length
 #define MAX_NAME (200) //!< Maximum file name length
 #define DELIM (",") //!< File delimiter
 
+/**
+ * @brief Reads the next non-blank line of any length from a csv file.
+ * @param [in] fin The csv file.
+ * @param [in,out] line Buffer for the line, grown as needed.
+ * @param [in,out] size The size of the buffer.
+ * @return Whether a line was read.
+ */
+static bool
+env_csv_line(FILE *fin, char **line, size_t *size)
+{
+    size_t len = 0;
+    int c = 0;
+    do {
+        c = fgetc(fin);
+        if (len + 1 >= *size) {
+            *size = 2 * (*size) + 128;
+            *line = realloc(*line, *size);
+        }
+        if (c != EOF && c != '\n') {
+            (*line)[len] = (char) c;
+            ++len;
+        } else {
+            (*line)[len] = '\0';
+            if (strspn(*line, " \t\r") < len) {
+                return true;
+            }
+            len = 0;
+        }
+    } while (c != EOF);
+    return false;
+}
+
 /**
  * @brief Returns the number of samples in a csv file.
  * @param [in] fin The csv file.
@@ -38,10 +69,12 @@ static int
 env_csv_samples(FILE *fin)
 {
     int n_samples = 0;
-    char line[MAX_COLS];
-    while (fgets(line, MAX_COLS, fin) != NULL) {
+    char *line = NULL;
+    size_t size = 0;
+    while (env_csv_line(fin, &line, &size)) {
         ++n_samples;
     }
+    free(line);
     return n_samples;
 }
 
@@ -55,17 +88,17 @@ env_csv_dim(FILE *fin)
 {
     rewind(fin);
     int n_dim = 0;
-    char line[MAX_COLS];
+    char *line = NULL;
+    size_t size = 0;
     char *saveptr = NULL;
-    if (fgets(line, MAX_COLS, fin) != NULL) {
+    if (env_csv_line(fin, &line, &size)) {
         const char *ptok = strtok_r(line, DELIM, &saveptr);
         while (ptok != NULL) {
-            if (strnlen(ptok, MAX_COLS) > 0) {
-                ++n_dim;
-            }
+            ++n_dim;
             ptok = strtok_r(NULL, DELIM, &saveptr);
         }
     }
+    free(line);
     return n_dim;
 }
 
@@ -82,20 +115,24 @@ env_csv_read_data(FILE *fin, double **data, const int n_samples,
 {
     rewind(fin);
     *data = malloc(sizeof(double) * n_dim * n_samples);
-    char line[MAX_COLS];
-    const char *str = NULL;
+    char *line = NULL;
+    size_t size = 0;
     char *saveptr = NULL;
     char *endptr = NULL;
     int i = 0;
-    while (fgets(line, MAX_COLS, fin) != NULL && i < n_samples) {
-        str = strtok_r(line, DELIM, &saveptr);
-        (*data)[i * n_dim] = strtod(str, &endptr);
-        for (int j = 1; j < n_dim; ++j) {
-            str = strtok_r(NULL, DELIM, &saveptr);
+    while (env_csv_line(fin, &line, &size) && i < n_samples) {
+        const char *str = strtok_r(line, DELIM, &saveptr);
+        for (int j = 0; j < n_dim; ++j) {
+            if (str == NULL) {
+                printf("Error reading csv file: too few values in a row\n");
+                exit(EXIT_FAILURE);
+            }
             (*data)[i * n_dim + j] = strtod(str, &endptr);
+            str = strtok_r(NULL, DELIM, &saveptr);
         }
         ++i;
     }
+    free(line);
 }
 
 /**
-- 
2.43.0


From 3fafab73dcc40c44f88214c392c7f33ac4b15bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:34 +0000
Subject: [PATCH 25/66] fix: maze reader writes past the maze before checking
 its size

---
 xcsf/env_maze.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/xcsf/env_maze.c b/xcsf/env_maze.c
index e848dbb..97ba26d 100644
--- a/xcsf/env_maze.c
+++ b/xcsf/env_maze.c
@@ -116,15 +116,20 @@ env_maze_init(struct XCSF *xcsf, const char *filename)
             env->xsize = x;
             x = 0;
         } else {
+            // check maximum maze size not exceeded
+            if (x >= MAX_SIZE || y >= MAX_SIZE) {
+                printf("Maze too big. Max size = [%d,%d]\n", MAX_SIZE,
+                       MAX_SIZE);
+                fclose(fp);
+                exit(EXIT_FAILURE);
+            }
             env->maze[y][x] = (char) c;
             ++x;
         }
-        // check maximum maze size not exceeded
-        if (x > MAX_SIZE || y > MAX_SIZE) {
-            printf("Maze too big. Max size = [%d,%d]\n", MAX_SIZE, MAX_SIZE);
-            fclose(fp);
-            exit(EXIT_FAILURE);
-        }
+    }
+    if (x > 0) { // last row not ended by a newline
+        ++y;
+        env->xsize = x;
     }
     // check if EOF came from an end-of-file or an error
     if (ferror(fp)) {
-- 
2.43.0


From a5775e70d7ee1e46b5c440651b2e125a99390235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:45 +0000
Subject: [PATCH 26/66] fix: configuration reader overflows its buffer and
 splits long lines

---
 xcsf/config.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/xcsf/config.c b/xcsf/config.c
index fc07365..b0f861a 100644
--- a/xcsf/config.c
+++ b/xcsf/config.c
@@ -24,8 +24,6 @@
 #include "config.h"
 #include "param.h"
 
-#define MAXLEN (127) //!< Maximum config file line length to read
-
 /**
  * @brief Removes tabs/spaces/lf/cr
  * @param [in] s The line to trim.
@@ -57,23 +55,22 @@ config_read(struct XCSF *xcsf, const char *filename)
     fseek(f, 0, SEEK_END);
     const long len = ftell(f);
     fseek(f, 0, SEEK_SET);
-    char file_buff[len];
+    char *file_buff = malloc(len + 1);
     file_buff[0] = '\0';
-    char line_buff[MAXLEN];
-    while (!feof(f)) {
-        if (fgets(line_buff, MAXLEN - 2, f) == NULL) {
-            break;
-        }
+    char *line_buff = malloc(len + 2);
+    while (fgets(line_buff, (int) len + 2, f) != NULL) {
         config_trim(line_buff);
-        if (strnlen(line_buff, MAXLEN) == 0 || line_buff[0] == '#') {
+        if (line_buff[0] == '\0' || line_buff[0] == '#') {
             continue; // ignore empty lines and lines starting with '#'
         }
         char *ptr = strchr(line_buff, '#'); // remove anything after #
         if (ptr != NULL) {
             *ptr = '\0';
         }
-        strncat(file_buff, line_buff, MAXLEN);
+        strcat(file_buff, line_buff);
     }
     fclose(f);
     param_json_import(xcsf, file_buff);
+    free(file_buff);
+    free(line_buff);
 }
-- 
2.43.0


From 05a82762c06edf90b0fa680ab1b677925bba82fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:03 +0000
Subject: [PATCH 27/66] fix: refuse CSV data sets whose files disagree

---
 xcsf/env_csv.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xcsf/env_csv.c b/xcsf/env_csv.c
index 0d2c983..a3861e3 100644
--- a/xcsf/env_csv.c
+++ b/xcsf/env_csv.c
@@ -179,13 +179,21 @@ env_csv_input_read(const char *infile, struct Input *train_data,
     snprintf(name, MAX_NAME, "%s_train_x.csv", infile);
     env_csv_read(name, &train_data->x, &train_data->n_samples,
                  &train_data->x_dim);
+    const int n_train = train_data->n_samples;
     snprintf(name, MAX_NAME, "%s_train_y.csv", infile);
     env_csv_read(name, &train_data->y, &train_data->n_samples,
                  &train_data->y_dim);
     snprintf(name, MAX_NAME, "%s_test_x.csv", infile);
     env_csv_read(name, &test_data->x, &test_data->n_samples, &test_data->x_dim);
+    const int n_test = test_data->n_samples;
     snprintf(name, MAX_NAME, "%s_test_y.csv", infile);
     env_csv_read(name, &test_data->y, &test_data->n_samples, &test_data->y_dim);
+    if (n_train != train_data->n_samples || n_test != test_data->n_samples ||
+        train_data->x_dim != test_data->x_dim ||
+        train_data->y_dim != test_data->y_dim) {
+        printf("Error reading csv files: mismatched samples or dimensions\n");
+        exit(EXIT_FAILURE);
+    }
 }
 
 /**
-- 
2.43.0


From 483f25684c6f69617f461a4cd98e794cf90c0cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:57 +0000
Subject: [PATCH 28/66] fix: trees, graphs and networks only received the
 inputs known when parameters were initialised

---
 xcsf/xcsf.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 92d1ff2..4999a4a 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -21,14 +21,38 @@
  * @brief System-level functions for initialising, saving, loading, etc.
  */
 
+#include "action.h"
 #include "cl.h"
 #include "clset.h"
 #include "cond_neural.h"
+#include "dgp.h"
+#include "gp.h"
 #include "loss.h"
+#include "neural_layer_args.h"
 #include "pa.h"
 #include "param.h"
 #include "pred_neural.h"
 
+/**
+ * @brief Sets the number of inputs received by trees, graphs, and networks.
+ * @details The number of inputs (x_dim) may have been changed after these
+ * parameters were initialised.
+ * @param [in] xcsf The XCSF data structure.
+ */
+static void
+xcsf_init_n_inputs(const struct XCSF *xcsf)
+{
+    tree_param_set_n_inputs(xcsf->cond->targs, xcsf->x_dim);
+    graph_param_set_n_inputs(xcsf->cond->dargs, xcsf->x_dim);
+    struct ArgsLayer *largs[] = { xcsf->cond->largs, xcsf->pred->largs,
+                                  xcsf->act->largs };
+    for (int i = 0; i < 3; ++i) {
+        if (largs[i] != NULL && !layer_receives_images(largs[i]->type)) {
+            largs[i]->n_inputs = xcsf->x_dim;
+        }
+    }
+}
+
 /**
  * @brief Initialises XCSF with an empty population.
  * @param [in] xcsf The XCSF data structure.
@@ -42,6 +66,7 @@ xcsf_init(struct XCSF *xcsf)
     xcsf->aset_size = 0;
     xcsf->mfrac = 0;
     xcsf->explore = false;
+    xcsf_init_n_inputs(xcsf);
     clset_init(&xcsf->pset);
     clset_init(&xcsf->prev_pset);
     pa_init(xcsf);
-- 
2.43.0


From 3aa53fbcb6c699fc6deedef1ef6d86a2dc62ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:02 +0000
Subject: [PATCH 29/66] fix: unknown or ill-typed evolution, action, condition
 and prediction settings were ignored

---
 xcsf/param.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/xcsf/param.c b/xcsf/param.c
index 0e5fed1..213a800 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -338,6 +338,27 @@ param_json_import_cl_general(struct XCSF *xcsf, const cJSON *json)
     return true;
 }
 
+/**
+ * @brief Checks that an object contains only a type and its arguments.
+ * @param [in] json cJSON object.
+ */
+static void
+param_json_check_type_args(const cJSON *json)
+{
+    const cJSON *type = cJSON_GetObjectItem(json, "type");
+    const cJSON *args = cJSON_GetObjectItem(json, "args");
+    if (args != NULL && !cJSON_IsObject(args)) {
+        printf("Error: %s args must be an object\n", json->string);
+        exit(EXIT_FAILURE);
+    }
+    for (const cJSON *iter = json->child; iter != NULL; iter = iter->next) {
+        if (iter != type && iter != args) {
+            printf("Error: unable to import %s parameters\n", json->string);
+            exit(EXIT_FAILURE);
+        }
+    }
+}
+
 /**
  * @brief Sets the action parameters from a json formatted string.
  * @param [in,out] xcsf The XCSF data structure.
@@ -451,19 +472,22 @@ param_json_import(struct XCSF *xcsf, const char *json_str)
         if (param_json_import_cl_general(xcsf, iter)) {
             continue;
         }
-        if (strncmp(iter->string, "ea\0", 3) == 0) {
+        if (strncmp(iter->string, "ea\0", 3) == 0 && cJSON_IsObject(iter)) {
             ea_param_json_import(xcsf, iter->child);
             continue;
         }
         if (strncmp(iter->string, "action\0", 7) == 0) {
+            param_json_check_type_args(iter);
             param_json_import_action(xcsf, iter);
             continue;
         }
         if (strncmp(iter->string, "condition\0", 10) == 0) {
+            param_json_check_type_args(iter);
             param_json_import_condition(xcsf, iter);
             continue;
         }
         if (strncmp(iter->string, "prediction\0", 11) == 0) {
+            param_json_check_type_args(iter);
             param_json_import_prediction(xcsf, iter);
             continue;
         }
-- 
2.43.0


From c0748070d7b2bea9259922575ce326c7a0b39696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:40 +0000
Subject: [PATCH 30/66] fix: misspelt recurrent activation settings were
 accepted

---
 xcsf/neural_layer_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index 7af0d20..4cf3021 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -314,7 +314,7 @@ layer_args_json_import_activation(struct ArgsLayer *args, const cJSON *json)
     if (strncmp(json->string, "activation\0", 15) == 0 &&
         cJSON_IsString(json)) {
         args->function = neural_activation_as_int(json->valuestring);
-    } else if (strncmp(json->string, "recurrent_activation\0", 17) == 0 &&
+    } else if (strncmp(json->string, "recurrent_activation\0", 21) == 0 &&
                cJSON_IsString(json)) {
         args->recurrent_function = neural_activation_as_int(json->valuestring);
     } else {
-- 
2.43.0


From ded0d1ff057ee1b8dba83de7ae32eaae64b0e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:56 +0000
Subject: [PATCH 31/66] fix: rules with DGP actions could not be imported

---
 xcsf/action.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xcsf/action.h b/xcsf/action.h
index caacbf3..3b69357 100644
--- a/xcsf/action.h
+++ b/xcsf/action.h
@@ -23,6 +23,7 @@
 
 #pragma once
 
+#include "condition.h"
 #include "xcsf.h"
 
 #define ACT_TYPE_INVALID (-1) //!< Error code for invalid actions
@@ -275,7 +276,14 @@ act_json_import(const struct XCSF *xcsf, struct Cl *c, const cJSON *json)
         exit(EXIT_FAILURE);
     }
     const char *type = item->valuestring;
-    if (action_type_as_int(type) != xcsf->act->type) {
+    const int cond_type = xcsf->cond->type;
+    if (cond_type == RULE_TYPE_DGP || cond_type == RULE_TYPE_NEURAL) {
+        // the action is computed by the condition and is named after it
+        if (condition_type_as_int(type) != cond_type) {
+            printf("action_json_import(): mismatched type\n");
+            exit(EXIT_FAILURE);
+        }
+    } else if (action_type_as_int(type) != xcsf->act->type) {
         printf("action_json_import(): mismatched type\n");
         printf("XCSF type = %s, but imported type = %s\n",
                action_type_as_string(xcsf->act->type), type);
-- 
2.43.0


From 002a9878652c7db49ced15997b4a597c2c5b7fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:23 +0000
Subject: [PATCH 32/66] fix: inserting an empty list of classifiers
 dereferences NULL

---
 xcsf/clset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index 78d399e..fa04229 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -798,7 +798,8 @@ clset_json_insert(struct XCSF *xcsf, const char *json_str)
 {
     cJSON *json = cJSON_Parse(json_str);
     utils_json_parse_check(json);
-    if (json->child != NULL && cJSON_IsArray(json->child)) {
+    if (json->child != NULL && cJSON_IsArray(json->child) &&
+        json->child->child != NULL) {
         cJSON *tail = json->child->child; // insert inverted for consistency
         tail->prev = NULL; // this should have been set by cJSON!
         while (tail->next != NULL) {
-- 
2.43.0


From 796b79a67d71b89049ccc1dfed5c3db973d74979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:36 +0000
Subject: [PATCH 33/66] fix: imported DGP graphs can be out of bounds or
 uninitialised

---
 xcsf/dgp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 4f4d57b..864bae8 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -458,7 +458,7 @@ graph_json_import_connectivity(struct Graph *dgp, const cJSON *json)
         const int max_c = dgp->n + dgp->n_inputs;
         for (int i = 0; i < dgp->klen; ++i) {
             const cJSON *item_i = cJSON_GetArrayItem(item, i);
-            if (item_i->valueint < 0 || item_i->valueint > max_c) {
+            if (item_i->valueint < 0 || item_i->valueint >= max_c) {
                 printf("Import error: connectivity value out of bounds\n");
                 exit(EXIT_FAILURE);
             }
@@ -480,13 +480,14 @@ graph_json_import(struct Graph *dgp, const struct ArgsDGP *args,
     dgp->n = args->n;
     const cJSON *n = cJSON_GetObjectItem(json, "n");
     if (n != NULL) {
-        if (!cJSON_IsNumber(n) || n->valueint < 1) {
+        if (!cJSON_IsNumber(n) || n->valueint != args->n) {
             printf("Import error: invalid n\n");
             exit(EXIT_FAILURE);
         }
         dgp->n = n->valueint;
     }
     dgp->n_inputs = args->n_inputs;
+    dgp->t = args->max_t;
     dgp->max_t = args->max_t;
     dgp->max_k = args->max_k;
     dgp->evolve_cycles = args->evolve_cycles;
@@ -498,10 +499,12 @@ graph_json_import(struct Graph *dgp, const struct ArgsDGP *args,
     dgp->function = malloc(sizeof(int) * dgp->n);
     dgp->connectivity = malloc(sizeof(int) * dgp->klen);
     dgp->mu = malloc(sizeof(double) * N_MU);
+    sam_init(dgp->mu, N_MU, MU_TYPE);
     graph_rand(dgp);
     const cJSON *t = cJSON_GetObjectItem(json, "t");
     if (t != NULL) {
-        if (!cJSON_IsNumber(t) || t->valueint < 1) {
+        if (!cJSON_IsNumber(t) || t->valueint < 1 ||
+            t->valueint > args->max_t) {
             printf("Import error: invalid t}\n");
             exit(EXIT_FAILURE);
         } else {
-- 
2.43.0


From 3ce90dd3422f31d2deeaf6ddeba6d4aad05a6dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:49 +0000
Subject: [PATCH 34/66] fix: imported rules can have impossible actions and
 numerosities

---
 xcsf/act_integer.c | 5 ++++-
 xcsf/cl.c          | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/xcsf/act_integer.c b/xcsf/act_integer.c
index 0924f58..022de88 100644
--- a/xcsf/act_integer.c
+++ b/xcsf/act_integer.c
@@ -270,10 +270,13 @@ void
 act_integer_json_import(const struct XCSF *xcsf, struct Cl *c,
                         const cJSON *json)
 {
-    (void) xcsf;
     struct ActInteger *act = c->act;
     const cJSON *item = cJSON_GetObjectItem(json, "action");
     if (item != NULL && cJSON_IsNumber(item)) {
+        if (item->valueint < 0 || item->valueint >= xcsf->n_actions) {
+            printf("Import error: action out of bounds\n");
+            exit(EXIT_FAILURE);
+        }
         act->action = item->valueint;
     }
     sam_json_import(act->mu, N_MU, json);
diff --git a/xcsf/cl.c b/xcsf/cl.c
index 95352c0..593d8ef 100644
--- a/xcsf/cl.c
+++ b/xcsf/cl.c
@@ -548,6 +548,10 @@ cl_json_import_properties(struct Cl *c, const cJSON *json)
     }
     item = cJSON_GetObjectItem(json, "numerosity");
     if (item != NULL && cJSON_IsNumber(item)) {
+        if (item->valueint < 1) {
+            printf("Import error: invalid numerosity\n");
+            exit(EXIT_FAILURE);
+        }
         c->num = item->valueint;
     }
     item = cJSON_GetObjectItem(json, "experience");
-- 
2.43.0


From 695fbbb7dbaccab30baca52cace348d49ff71044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:01 +0000
Subject: [PATCH 35/66] fix: imported ternary conditions can be too long or
 contain other symbols

---
 xcsf/cond_ternary.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xcsf/cond_ternary.c b/xcsf/cond_ternary.c
index d565d0b..90d7fef 100644
--- a/xcsf/cond_ternary.c
+++ b/xcsf/cond_ternary.c
@@ -372,8 +372,16 @@ cond_ternary_json_import(const struct XCSF *xcsf, struct Cl *c,
                 printf("Import error: string terminated early\n");
                 exit(EXIT_FAILURE);
             }
+            if (bit != '0' && bit != '1' && bit != DONT_CARE) {
+                printf("Import error: invalid string\n");
+                exit(EXIT_FAILURE);
+            }
             cond->string[i] = bit;
         }
+        if (item->valuestring[cond->length] != '\0') {
+            printf("Import error: string too long\n");
+            exit(EXIT_FAILURE);
+        }
     }
     sam_json_import(cond->mu, N_MU, json);
 }
-- 
2.43.0


From 47b5f690396a746613325a0347e3ff7024b46da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:19 +0000
Subject: [PATCH 36/66] fix: printing a neural network leaks its description

---
 xcsf/neural.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index b02ff19..335bd17 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -395,7 +395,9 @@ neural_outputs(const struct Net *net)
 void
 neural_print(const struct Net *net, const bool print_weights)
 {
-    printf("%s\n", neural_json_export(net, print_weights));
+    char *json_str = neural_json_export(net, print_weights);
+    printf("%s\n", json_str);
+    free(json_str);
 }
 
 /**
-- 
2.43.0


From 2d5b1be31bf734a86fd57121253ca00912f5064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:58 +0000
Subject: [PATCH 37/66] fix: loading a model keeps a stored population that may
 not fit it

---
 xcsf/xcsf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 4999a4a..3c250b7 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -142,6 +142,8 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
         clset_kill(xcsf, &xcsf->pset);
         clset_init(&xcsf->pset);
     }
+    // a stored population may not fit the loaded parameters
+    clset_kill(xcsf, &xcsf->prev_pset);
     FILE *fp = fopen(filename, "rb");
     if (fp == 0) {
         printf("Error loading file: %s. %s.\n", filename, strerror(errno));
-- 
2.43.0


From 3edc249673607a798088ff8585880b2f54dafffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:43 +0000
Subject: [PATCH 38/66] fix: values given instead of covering are referenced
 after they are freed

---
 xcsf/pybind_wrapper.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index d90636a..20980a2 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -535,12 +535,11 @@ class XCS
     }
 
     /**
-     * @brief Returns the values specified in the cover array.
-     * @param [in] cover The values to return for covering.
-     * @return The cover array values.
+     * @brief Copies the values specified into the cover array.
+     * @param [in] cover The values to use for covering.
      */
-    double *
-    get_cover(const py::array_t<double> cover)
+    void
+    copy_cover(const py::array_t<double> cover)
     {
         const py::buffer_info buf_c = cover.request();
         if (buf_c.ndim != 1) {
@@ -555,7 +554,11 @@ class XCS
                 << xcs.y_dim << std::endl;
             throw std::invalid_argument(err.str());
         }
-        return reinterpret_cast<double *>(buf_c.ptr);
+        // the same values are used for each action
+        const double *values = reinterpret_cast<double *>(buf_c.ptr);
+        for (int i = 0; i < xcs.pa_size; ++i) {
+            xcs.cover[i] = values[i % xcs.y_dim];
+        }
     }
 
     /**
@@ -569,7 +572,7 @@ class XCS
             memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
         } else {
             py::array_t<double> cover_arr = cover.cast<py::array_t<double>>();
-            xcs.cover = get_cover(cover_arr);
+            copy_cover(cover_arr);
         }
     }
 
-- 
2.43.0


From 5ac10bc0f8622a753a27ee9656fd21e2c67b43c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:00 +0000
Subject: [PATCH 39/66] fix: arrays that are not C-contiguous are read in the
 wrong order

---
 xcsf/pybind_wrapper.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 20980a2..5bcd6c0 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -58,6 +58,11 @@ extern "C" {
 #include "pybind_callback_earlystop.h"
 #include "pybind_utils.h"
 
+/**
+ * @brief Arrays received from Python: converted to C-contiguous as necessary.
+ */
+typedef py::array_t<double, py::array::c_style | py::array::forcecast> ArrayIn;
+
 /**
  * @brief Python XCSF class data structure.
  */
@@ -222,7 +227,7 @@ class XCS
      * @return The prediction error.
      */
     double
-    fit(const py::array_t<double> input, const int action, const double reward)
+    fit(const ArrayIn input, const int action, const double reward)
     {
         py::buffer_info buf = input.request();
         if (buf.shape[0] != xcs.x_dim) {
@@ -284,7 +289,7 @@ class XCS
      * @return The selected action.
      */
     int
-    decision(const py::array_t<double> input, const bool explore)
+    decision(const ArrayIn input, const bool explore)
     {
         py::buffer_info buf = input.request();
         if (buf.shape[0] != xcs.x_dim) {
@@ -334,8 +339,8 @@ class XCS
      * @param [in] Y Vector of truth values with shape (n_samples, y_dim).
      */
     void
-    load_input(struct Input *data, const py::array_t<double> X,
-               const py::array_t<double> Y)
+    load_input(struct Input *data, const ArrayIn X,
+               const ArrayIn Y)
     {
         // access input
         const py::buffer_info buf_x = X.request();
@@ -433,8 +438,8 @@ class XCS
                     throw std::invalid_argument(
                         "validation_data must be a tuple with two arrays");
                 }
-                py::array_t<double> X_val = data[0].cast<py::array_t<double>>();
-                py::array_t<double> y_val = data[1].cast<py::array_t<double>>();
+                ArrayIn X_val = data[0].cast<ArrayIn>();
+                ArrayIn y_val = data[1].cast<ArrayIn>();
                 load_input(test_data, X_val, y_val);
                 val_data = test_data;
                 // use zeros for validation predictions instead of covering
@@ -496,7 +501,7 @@ class XCS
      * @return The fitted XCSF model.
      */
     XCS &
-    fit(const py::array_t<double> X_train, const py::array_t<double> y_train,
+    fit(const ArrayIn X_train, const ArrayIn y_train,
         const bool shuffle, const bool warm_start, const bool verbose,
         py::object callbacks, py::kwargs kwargs)
     {
@@ -539,7 +544,7 @@ class XCS
      * @param [in] cover The values to use for covering.
      */
     void
-    copy_cover(const py::array_t<double> cover)
+    copy_cover(const ArrayIn cover)
     {
         const py::buffer_info buf_c = cover.request();
         if (buf_c.ndim != 1) {
@@ -571,7 +576,7 @@ class XCS
         if (cover.is_none()) {
             memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
         } else {
-            py::array_t<double> cover_arr = cover.cast<py::array_t<double>>();
+            ArrayIn cover_arr = cover.cast<ArrayIn>();
             copy_cover(cover_arr);
         }
     }
@@ -584,7 +589,7 @@ class XCS
      * @return The prediction array values.
      */
     py::array_t<double>
-    predict(const py::array_t<double> X, const py::object &cover)
+    predict(const ArrayIn X, const py::object &cover)
     {
         const py::buffer_info buf_x = X.request();
         if (buf_x.ndim < 1 || buf_x.ndim > 2) {
@@ -618,7 +623,7 @@ class XCS
      * @return The average XCSF error using the loss function.
      */
     double
-    score(const py::array_t<double> X, const py::array_t<double> Y, const int N,
+    score(const ArrayIn X, const ArrayIn Y, const int N,
           const py::object &cover)
     {
         set_cover(cover);
@@ -946,9 +951,9 @@ PYBIND11_MODULE(xcsf, m)
               "machine learning.\nFor details on how to use this module see: "
               "https://github.com/xcsf-dev/xcsf/wiki/Python-Library-Usage";
 
-    double (XCS::*fit1)(const py::array_t<double>, const int, const double) =
+    double (XCS::*fit1)(const ArrayIn, const int, const double) =
         &XCS::fit;
-    XCS &(XCS::*fit2)(const py::array_t<double>, const py::array_t<double>,
+    XCS &(XCS::*fit2)(const ArrayIn, const ArrayIn,
                       const bool, const bool, const bool, py::object,
                       py::kwargs) = &XCS::fit;
 
-- 
2.43.0


From d50f0bbca4294cc5f026fc236aa383f4695a3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:15 +0000
Subject: [PATCH 40/66] fix: reinforcement learning updates read the state
 array after it may be freed

---
 xcsf/pybind_wrapper.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 5bcd6c0..a523e38 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -70,7 +70,7 @@ class XCS
 {
   private:
     struct XCSF xcs; //!< XCSF data structure
-    double *state; //!< Current input state for RL
+    std::vector<double> state; //!< Current input state for RL
     int action; //!< Current action for RL
     double payoff; //!< Current reward for RL
     struct Input *train_data; //!< Training data for supervised learning
@@ -112,7 +112,7 @@ class XCS
     void
     reset(void)
     {
-        state = NULL;
+        state.clear();
         action = 0;
         payoff = 0;
         train_data = new struct Input;
@@ -241,8 +241,9 @@ class XCS
                   << std::endl;
             throw std::invalid_argument(error.str());
         }
-        state = (double *) buf.ptr;
-        return xcs_rl_fit(&xcs, state, action, reward);
+        const double *values = (double *) buf.ptr;
+        state.assign(values, values + xcs.x_dim);
+        return xcs_rl_fit(&xcs, state.data(), action, reward);
     }
 
     /**
@@ -278,7 +279,7 @@ class XCS
     void
     end_step(void)
     {
-        xcs_rl_end_step(&xcs, state, action, payoff);
+        xcs_rl_end_step(&xcs, state.data(), action, payoff);
     }
 
     /**
@@ -297,9 +298,10 @@ class XCS
             error << "decision(): x_dim is not equal to: " << xcs.x_dim;
             throw std::invalid_argument(error.str());
         }
-        state = (double *) buf.ptr;
+        const double *values = (double *) buf.ptr;
+        state.assign(values, values + xcs.x_dim);
         param_set_explore(&xcs, explore);
-        action = xcs_rl_decision(&xcs, state);
+        action = xcs_rl_decision(&xcs, state.data());
         return action;
     }
 
@@ -313,7 +315,7 @@ class XCS
     update(const double reward, const bool done)
     {
         payoff = reward;
-        xcs_rl_update(&xcs, state, action, payoff, done);
+        xcs_rl_update(&xcs, state.data(), action, payoff, done);
     }
 
     /**
-- 
2.43.0


From f30b8a0601b1453cd84c4908e6c20b1ffd23a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:33 +0000
Subject: [PATCH 41/66] fix: validation data that need converting are used
 after they are freed

---
 xcsf/pybind_wrapper.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index a523e38..eea2c07 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -76,6 +76,8 @@ class XCS
     struct Input *train_data; //!< Training data for supervised learning
     struct Input *test_data; //!< Test data for supervised learning
     struct Input *val_data; //!< Validation data
+    ArrayIn val_x; //!< Validation features, kept while fitting
+    ArrayIn val_y; //!< Validation truth values, kept while fitting
     py::dict params; //!< Dictionary of parameters and their values
     py::list metric_train;
     py::list metric_val;
@@ -440,9 +442,9 @@ class XCS
                     throw std::invalid_argument(
                         "validation_data must be a tuple with two arrays");
                 }
-                ArrayIn X_val = data[0].cast<ArrayIn>();
-                ArrayIn y_val = data[1].cast<ArrayIn>();
-                load_input(test_data, X_val, y_val);
+                val_x = data[0].cast<ArrayIn>();
+                val_y = data[1].cast<ArrayIn>();
+                load_input(test_data, val_x, val_y);
                 val_data = test_data;
                 // use zeros for validation predictions instead of covering
                 memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
-- 
2.43.0


From f030c6305f1b6c1946447e1cdd652e0e702d95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:49 +0000
Subject: [PATCH 42/66] fix: arrays whose shape does not fit the model are read
 out of bounds

---
 xcsf/pybind_wrapper.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index eea2c07..c6ad42d 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -232,7 +232,7 @@ class XCS
     fit(const ArrayIn input, const int action, const double reward)
     {
         py::buffer_info buf = input.request();
-        if (buf.shape[0] != xcs.x_dim) {
+        if (buf.ndim != 1 || buf.shape[0] != xcs.x_dim) {
             std::ostringstream error;
             error << "fit(): x_dim is not equal to: " << xcs.x_dim << std::endl;
             throw std::invalid_argument(error.str());
@@ -295,7 +295,7 @@ class XCS
     decision(const ArrayIn input, const bool explore)
     {
         py::buffer_info buf = input.request();
-        if (buf.shape[0] != xcs.x_dim) {
+        if (buf.ndim != 1 || buf.shape[0] != xcs.x_dim) {
             std::ostringstream error;
             error << "decision(): x_dim is not equal to: " << xcs.x_dim;
             throw std::invalid_argument(error.str());
@@ -359,18 +359,23 @@ class XCS
         if (buf_x.shape[0] != buf_y.shape[0]) {
             throw std::invalid_argument("X and Y n_samples are not equal");
         }
-        if (buf_x.ndim > 1 && buf_x.shape[1] != xcs.x_dim) {
+        if (buf_x.shape[0] < 1) {
+            throw std::invalid_argument("X and Y must not be empty");
+        }
+        const int x_dim = (buf_x.ndim > 1) ? buf_x.shape[1] : 1;
+        const int y_dim = (buf_y.ndim > 1) ? buf_y.shape[1] : 1;
+        if (x_dim != xcs.x_dim) {
             std::ostringstream error;
             error << "load_input():";
-            error << " received x_dim: (" << buf_x.shape[1] << ")";
+            error << " received x_dim: (" << x_dim << ")";
             error << " but expected (" << xcs.x_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
         }
-        if (buf_y.ndim > 1 && buf_y.shape[1] != xcs.y_dim) {
+        if (y_dim != xcs.y_dim) {
             std::ostringstream error;
             error << "load_input():";
-            error << " received y_dim: (" << buf_y.shape[1] << ")";
+            error << " received y_dim: (" << y_dim << ")";
             error << " but expected (" << xcs.y_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
@@ -599,10 +604,11 @@ class XCS
         if (buf_x.ndim < 1 || buf_x.ndim > 2) {
             throw std::invalid_argument("predict(): X must be 1 or 2-D array");
         }
-        if (buf_x.ndim > 1 && buf_x.shape[1] != xcs.x_dim) {
+        const int x_dim = (buf_x.ndim > 1) ? buf_x.shape[1] : 1;
+        if (x_dim != xcs.x_dim) {
             std::ostringstream error;
             error << "predict():";
-            error << " received x_dim: (" << buf_x.shape[1] << ")";
+            error << " received x_dim: (" << x_dim << ")";
             error << " but expected (" << xcs.x_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
-- 
2.43.0


From 975ac24e56cec112343ab366bc6868176fd987ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:32 +0000
Subject: [PATCH 43/66] fix: fit runs more than the maximum number of trials

---
 xcsf/pybind_wrapper.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index c6ad42d..f999b9f 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -85,7 +85,7 @@ class XCS
     py::list metric_psize;
     py::list metric_msize;
     py::list metric_mfrac;
-    int metric_counter;
+    int metric_counter; //!< Number of trials run
 
   public:
     /**
@@ -422,14 +422,13 @@ class XCS
     void
     update_metrics(const double train, const double val, const int n_trials)
     {
-        const int trial = (1 + metric_counter) * n_trials;
+        metric_counter += n_trials;
         metric_train.append(train);
         metric_val.append(val);
-        metric_trial.append(trial);
+        metric_trial.append(metric_counter);
         metric_psize.append(xcs.pset.size);
         metric_msize.append(xcs.mset_size);
         metric_mfrac.append(xcs.mfrac);
-        ++metric_counter;
     }
 
     /**
@@ -527,9 +526,10 @@ class XCS
         }
         // break up the learning into epochs to track metrics
         const int n = ceil(xcs.MAX_TRIALS / (double) xcs.PERF_TRIALS);
-        const int n_trials = std::min(xcs.MAX_TRIALS, xcs.PERF_TRIALS);
         for (int i = 0; i < n; ++i) {
-            const int start = i * n_trials;
+            const int start = i * xcs.PERF_TRIALS;
+            const int n_trials =
+                std::min(xcs.MAX_TRIALS - start, xcs.PERF_TRIALS);
             const double train_error = xcs_supervised_fit(
                 &xcs, train_data, NULL, shuffle, start, n_trials);
             double val_error = 0;
-- 
2.43.0


From 9cfe1660162cef039ff75625e1172288285ec622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:49 +0000
Subject: [PATCH 44/66] fix: scoring with one sample uses all samples

---
 xcsf/pybind_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index f999b9f..2cba88a 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -638,7 +638,7 @@ class XCS
     {
         set_cover(cover);
         load_input(test_data, X, Y);
-        if (N > 1) {
+        if (N > 0) {
             return xcs_supervised_score_n(&xcs, test_data, N, xcs.cover);
         }
         return xcs_supervised_score(&xcs, test_data, xcs.cover);
-- 
2.43.0


From b89867b7f5870ac4d27d6cdf92f1e0507f682b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:06 +0000
Subject: [PATCH 45/66] fix: every prediction leaks its output

---
 xcsf/pybind_wrapper.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 2cba88a..545da56 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -615,12 +615,12 @@ class XCS
         }
         const int n_samples = buf_x.shape[0];
         const double *input = reinterpret_cast<double *>(buf_x.ptr);
-        double *output =
-            (double *) malloc(sizeof(double) * n_samples * xcs.pa_size);
+        py::array_t<double> output(
+            std::vector<ptrdiff_t>{ n_samples, xcs.pa_size });
         set_cover(cover);
-        xcs_supervised_predict(&xcs, input, output, n_samples, xcs.cover);
-        return py::array_t<double>(
-            std::vector<ptrdiff_t>{ n_samples, xcs.pa_size }, output);
+        xcs_supervised_predict(&xcs, input, output.mutable_data(), n_samples,
+                               xcs.cover);
+        return output;
     }
 
     /**
-- 
2.43.0


From 7f91303b32fd05f3f83468f2cdf6ede5f0feb9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:21 +0000
Subject: [PATCH 46/66] fix: exporting the population to JSON from Python leaks
 the string

---
 xcsf/pybind_wrapper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 545da56..a87226d 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -820,12 +820,15 @@ class XCS
      * @param [in] prediction Whether to return the prediction.
      * @return String encoded in json format.
      */
-    const char *
+    std::string
     json_export(const bool condition, const bool action, const bool prediction)
     {
         if (xcs.pset.list != NULL) {
-            return clset_json_export(&xcs, &xcs.pset, condition, action,
-                                     prediction);
+            char *str = clset_json_export(&xcs, &xcs.pset, condition, action,
+                                          prediction);
+            const std::string json_str(str);
+            free(str);
+            return json_str;
         }
         return "null";
     }
-- 
2.43.0


From f84db05408e33314f8d0cd67cdc130c33cf1be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:36 +0000
Subject: [PATCH 47/66] fix: models pickled at the same time overwrite each
 other

---
 xcsf/pybind_wrapper.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index a87226d..1c691e2 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -644,6 +644,18 @@ class XCS
         return xcs_supervised_score(&xcs, test_data, xcs.cover);
     }
 
+    /**
+     * @brief Creates a new temporary file that no other process uses.
+     * @return The name of the file.
+     */
+    static std::string
+    temporary_file()
+    {
+        py::tuple tmp = py::module::import("tempfile").attr("mkstemp")();
+        py::module::import("os").attr("close")(tmp[0]);
+        return tmp[1].cast<std::string>();
+    }
+
     /**
      * @brief Implements pickle file writing.
      * @details Uses a temporary binary file.
@@ -653,7 +665,8 @@ class XCS
     serialize() const
     {
         // Write XCSF to a temporary binary file
-        const char *filename = "_tmp_pickle.bin";
+        const std::string name = temporary_file();
+        const char *filename = name.c_str();
         xcsf_save(&xcs, filename);
         // Read the binary file into bytes
         std::ifstream file(filename, std::ios::binary);
@@ -677,7 +690,8 @@ class XCS
     deserialize(const py::bytes &state)
     {
         // Write the XCSF bytes to a temporary binary file
-        const char *filename = "_tmp_pickle.bin";
+        const std::string name = temporary_file();
+        const char *filename = name.c_str();
         std::ofstream file(filename, std::ios::binary);
         file.write(state.cast<std::string>().c_str(),
                    state.cast<std::string>().size());
-- 
2.43.0


From ed8e34af30b07420286b066208d0a5c67c0826f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:16 +0000
Subject: [PATCH 48/66] fix: tournament selection with size zero never ends

---
 xcsf/ea.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xcsf/ea.c b/xcsf/ea.c
index dcf4c7a..58eaf64 100644
--- a/xcsf/ea.c
+++ b/xcsf/ea.c
@@ -156,6 +156,13 @@ static struct Cl *
 ea_select_tournament(const struct XCSF *xcsf, const struct Set *set)
 {
     struct Cl *winner = NULL;
+    if (xcsf->ea->select_size <= 0) { // nobody would ever enter: pick anyone
+        const struct Clist *iter = set->list;
+        for (int i = rand_uniform_int(0, set->size); i > 0; --i) {
+            iter = iter->next;
+        }
+        return iter->cl;
+    }
     while (winner == NULL) {
         const struct Clist *iter = set->list;
         while (iter != NULL) {
-- 
2.43.0


From 899b2323e4467eba5755619debe5730a964c02ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:47 +0000
Subject: [PATCH 49/66] fix: growing trees of at most one or two symbols never
 ends

---
 xcsf/gp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index 456aba3..74110d8 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -80,7 +80,8 @@ tree_grow(const struct ArgsGPTree *args, int *tree, const int pos,
     if (pos >= max) {
         return -1;
     }
-    if (depth == 0 || (pos != 0 && rand_uniform(0, 1) < 0.5)) {
+    // a root function needs room for its two arguments
+    if (depth == 0 || max < 3 || (pos != 0 && rand_uniform(0, 1) < 0.5)) {
         const int max_term = GP_NUM_FUNC + args->n_constants + args->n_inputs;
         tree[pos] = rand_uniform_int(GP_NUM_FUNC, max_term);
         return pos + 1;
-- 
2.43.0


From bdde51b8310d51931b8c3b2cfa27130c7603225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:02 +0000
Subject: [PATCH 50/66] fix: exploring never ends when all matching rules have
 zero fitness

---
 xcsf/pa.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xcsf/pa.c b/xcsf/pa.c
index a465746..97f796c 100644
--- a/xcsf/pa.c
+++ b/xcsf/pa.c
@@ -149,10 +149,16 @@ pa_best_action(const struct XCSF *xcsf)
 int
 pa_rand_action(const struct XCSF *xcsf)
 {
+    bool represented = false;
+    for (int i = 0; i < xcsf->n_actions; ++i) {
+        if (xcsf->nr[i] != 0) {
+            represented = true;
+        }
+    }
     int action = 0;
     do {
         action = rand_uniform_int(0, xcsf->n_actions);
-    } while (xcsf->nr[action] == 0);
+    } while (represented && xcsf->nr[action] == 0);
     return action;
 }
 
-- 
2.43.0


From 828fa349baa1ef6fcf6fb13e147292c4c1520ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:19 +0000
Subject: [PATCH 51/66] fix: rules created after switching to classification
 have the old output

---
 xcsf/xcsf.c | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 3c250b7..d431de1 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -192,6 +192,46 @@ xcsf_pred_expand(const struct XCSF *xcsf)
     }
 }
 
+/**
+ * @brief Switches the prediction network parameters to classification.
+ * @param [in] xcsf The XCSF data structure.
+ * @param [in] n_del The number of hidden layers to remove.
+ */
+static void
+xcsf_ae_to_classifier_args(struct XCSF *xcsf, const int n_del)
+{
+    struct ArgsLayer *largs = xcsf->pred->largs;
+    int n_layers = 0;
+    for (const struct ArgsLayer *iter = largs; iter != NULL;
+         iter = iter->next) {
+        ++n_layers;
+    }
+    struct ArgsLayer *tail = largs;
+    for (int i = 1; i < n_layers - n_del; ++i) {
+        tail = tail->next;
+    }
+    layer_args_free(&tail->next);
+    struct ArgsLayer *output = malloc(sizeof(struct ArgsLayer));
+    layer_args_init(output);
+    output->type = CONNECTED;
+    output->function = LINEAR;
+    output->n_init = xcsf->y_dim;
+    output->n_max = xcsf->y_dim;
+    output->evolve_connect = largs->evolve_connect;
+    output->evolve_weights = largs->evolve_weights;
+    output->evolve_eta = largs->evolve_eta;
+    output->sgd_weights = largs->sgd_weights;
+    output->eta = largs->eta;
+    output->eta_min = largs->eta_min;
+    output->momentum = largs->momentum;
+    output->decay = largs->decay;
+    tail->next = output;
+    output->next = malloc(sizeof(struct ArgsLayer));
+    layer_args_init(output->next);
+    output->next->type = SOFTMAX;
+    output->next->scale = 1;
+}
+
 /**
  * @brief Switches from autoencoding to classification.
  * @param [in] xcsf The XCSF data structure.
@@ -216,6 +256,10 @@ xcsf_ae_to_classifier(struct XCSF *xcsf, const int y_dim, const int n_del)
         iter->cl->time = xcsf->time;
         iter = iter->next;
     }
+    // rules created from now on need the same output
+    xcsf_ae_to_classifier_args(xcsf, n_del);
+    // a stored population does not fit the new output
+    clset_kill(xcsf, &xcsf->prev_pset);
 }
 
 /**
-- 
2.43.0


From c421a7428a69fa77e29333062dca4d90f4c2fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:32 +0000
Subject: [PATCH 52/66] fix: changing networks of rules that have none corrupts
 memory

---
 xcsf/xcsf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index d431de1..f299a82 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -181,6 +181,9 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
 void
 xcsf_pred_expand(const struct XCSF *xcsf)
 {
+    if (xcsf->pred->type != PRED_TYPE_NEURAL) {
+        return; // there are no networks
+    }
     const struct Clist *iter = xcsf->pset.list;
     while (iter != NULL) {
         pred_neural_expand(xcsf, iter->cl);
@@ -241,6 +244,9 @@ xcsf_ae_to_classifier_args(struct XCSF *xcsf, const int n_del)
 void
 xcsf_ae_to_classifier(struct XCSF *xcsf, const int y_dim, const int n_del)
 {
+    if (xcsf->pred->type != PRED_TYPE_NEURAL) {
+        return; // there are no networks
+    }
     pa_free(xcsf);
     param_set_y_dim(xcsf, y_dim);
     param_set_loss_func(xcsf, LOSS_ONEHOT);
-- 
2.43.0


From f164f5be7aa2527cab3b9e644a686fe54d593e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:53 +0000
Subject: [PATCH 53/66] fix: parameters reported after switching to
 classification are stale

---
 xcsf/pybind_wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 1c691e2..1914f47 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -205,6 +205,7 @@ class XCS
     ae_to_classifier(const int y_dim, const int n_del)
     {
         xcsf_ae_to_classifier(&xcs, y_dim, n_del);
+        update_params();
     }
 
     /**
-- 
2.43.0


From 0cc0635ec762b7d1faa3319e9bde13b475103b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:14 +0000
Subject: [PATCH 54/66] fix: param: seed before importing parameters that draw
 random numbers

---
 xcsf/param.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xcsf/param.c b/xcsf/param.c
index 213a800..84e2a7e 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -459,7 +459,15 @@ param_json_import(struct XCSF *xcsf, const char *json_str)
 {
     cJSON *json = cJSON_Parse(json_str);
     utils_json_parse_check(json);
+    // seed first: importing other parameters may draw random numbers
+    cJSON *seed = cJSON_GetObjectItemCaseSensitive(json, "random_state");
+    if (seed != NULL) {
+        param_json_import_general(xcsf, seed);
+    }
     for (cJSON *iter = json->child; iter != NULL; iter = iter->next) {
+        if (iter == seed && cJSON_IsNumber(seed)) {
+            continue;
+        }
         if (param_json_import_general(xcsf, iter)) {
             continue;
         }
-- 
2.43.0


From 3c23b3e35f87c3b263a69b0662dd4799fe8c61ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:04 +0000
Subject: [PATCH 55/66] fix: binarising a float with more than 31 bits

---
 xcsf/utils.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xcsf/utils.h b/xcsf/utils.h
index 2df6236..be1a5e5 100644
--- a/xcsf/utils.h
+++ b/xcsf/utils.h
@@ -118,10 +118,11 @@ float_to_binary(const double f, char *binary, const int bits)
             binary[i] = '0';
         }
     } else {
-        int a = (int) (f * pow(2, bits));
+        double a = f;
         for (int i = 0; i < bits; ++i) {
-            binary[bits - 1 - i] = (a % 2) + '0';
-            a /= 2;
+            a *= 2;
+            binary[i] = (a >= 1) ? '1' : '0';
+            a -= (a >= 1) ? 1 : 0;
         }
     }
 }
-- 
2.43.0


From 6e7a4b02e8260998c3d5245e95ac71a071c25c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:16 +0000
Subject: [PATCH 56/66] fix: mean performance of the first window

---
 xcsf/perf.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xcsf/perf.c b/xcsf/perf.c
index 633a3c6..ce4763e 100644
--- a/xcsf/perf.c
+++ b/xcsf/perf.c
@@ -35,8 +35,11 @@ perf_print(const struct XCSF *xcsf, double *error, double *terror,
            const int trial)
 {
     if (trial % xcsf->PERF_TRIALS == 0 && trial > 0) {
-        *error /= xcsf->PERF_TRIALS;
-        *terror /= xcsf->PERF_TRIALS;
+        // the first window also includes trial 0
+        const int n = (trial == xcsf->PERF_TRIALS) ? trial + 1 :
+                                                     xcsf->PERF_TRIALS;
+        *error /= n;
+        *terror /= n;
         printf("%d %.5f %.5f %d\n", trial, *error, *terror, xcsf->pset.size);
         fflush(stdout);
         *error = 0;
-- 
2.43.0


From f86b63810eb23dff4634f387f5ccd845ef942deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:21 +0000
Subject: [PATCH 57/66] fix: layer type names that only begin with recurrent

---
 xcsf/neural_layer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural_layer.c b/xcsf/neural_layer.c
index 5d22e2c..22158ec 100644
--- a/xcsf/neural_layer.c
+++ b/xcsf/neural_layer.c
@@ -552,7 +552,7 @@ layer_type_as_int(const char *type)
     if (strncmp(type, STRING_NOISE, 6) == 0) {
         return NOISE;
     }
-    if (strncmp(type, STRING_RECURRENT, 9) == 0) {
+    if (strncmp(type, STRING_RECURRENT, 10) == 0) {
         return RECURRENT;
     }
     if (strncmp(type, STRING_LSTM, 5) == 0) {
-- 
2.43.0


From 44f96b311458d93347912f1d1f573fe74bf4dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:32 +0000
Subject: [PATCH 58/66] fix: mean time stamp of a set overflows in long runs

---
 xcsf/clset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index fa04229..9d1407e 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -271,7 +271,7 @@ clset_total_time(const struct Set *set)
     double sum = 0;
     const struct Clist *iter = set->list;
     while (iter != NULL) {
-        sum += iter->cl->time * iter->cl->num;
+        sum += (double) iter->cl->time * iter->cl->num;
         iter = iter->next;
     }
     return sum;
-- 
2.43.0


From 341025808db9c106f97b032f024a50fbbacb9eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:51 +0000
Subject: [PATCH 59/66] fix: checkpoint callback prints with verbose off

---
 xcsf/pybind_callback_checkpoint.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xcsf/pybind_callback_checkpoint.h b/xcsf/pybind_callback_checkpoint.h
index eea88a4..55ff68d 100644
--- a/xcsf/pybind_callback_checkpoint.h
+++ b/xcsf/pybind_callback_checkpoint.h
@@ -78,10 +78,12 @@ class CheckpointCallback : public Callback
     save(struct XCSF *xcsf)
     {
         xcsf_save(xcsf, filename.c_str());
-        std::ostringstream status;
-        status << get_timestamp() << " CheckpointCallback: ";
-        status << "saved " << filename;
-        py::print(status.str());
+        if (verbose) {
+            std::ostringstream status;
+            status << get_timestamp() << " CheckpointCallback: ";
+            status << "saved " << filename;
+            py::print(status.str());
+        }
     }
 
     /**
-- 
2.43.0


From cfda61e2e59fb32084e31d79cb77ed9afc2b808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:10 +0000
Subject: [PATCH 60/66] fix: status line rounds the number of trials

---
 xcsf/pybind_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 1914f47..4f624d1 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -395,7 +395,7 @@ class XCS
     void
     print_status()
     {
-        double trial = py::cast<double>(metric_trial[metric_trial.size() - 1]);
+        const int trial = py::cast<int>(metric_trial[metric_trial.size() - 1]);
         double train = py::cast<double>(metric_train[metric_train.size() - 1]);
         double psize = py::cast<double>(metric_psize[metric_psize.size() - 1]);
         double msize = py::cast<double>(metric_msize[metric_msize.size() - 1]);
-- 
2.43.0


From a4a3e13a8d744848e2877f42c0d23655d34cf48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:33 +0000
Subject: [PATCH 61/66] fix: match sets of about a million rules exhaust the
 stack

---
 xcsf/clset.c | 9 ++++++---
 xcsf/ea.c    | 4 +++-
 xcsf/pa.c    | 3 ++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index 9d1407e..d1e5293 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -205,7 +205,7 @@ static void
 clset_update_fit(const struct XCSF *xcsf, const struct Set *set)
 {
     double acc_sum = 0;
-    double accs[set->size];
+    double *accs = malloc(sizeof(double) * set->size);
     // calculate accuracies
     const struct Clist *iter = set->list;
     for (int i = 0; iter != NULL && i < set->size; ++i) {
@@ -219,6 +219,7 @@ clset_update_fit(const struct XCSF *xcsf, const struct Set *set)
         cl_update_fit(xcsf, iter->cl, acc_sum, accs[i]);
         iter = iter->next;
     }
+    free(accs);
 }
 
 /**
@@ -357,7 +358,7 @@ clset_match(struct XCSF *xcsf, const double *x, const bool cover)
 {
 #ifdef PARALLEL_MATCH
     // prepare for parallel processing of matching conditions
-    struct Clist *blist[xcsf->pset.size];
+    struct Clist **blist = malloc(sizeof(struct Clist *) * xcsf->pset.size);
     struct Clist *iter = xcsf->pset.list;
     for (int i = 0; iter != NULL && i < xcsf->pset.size; ++i) {
         blist[i] = iter;
@@ -376,6 +377,7 @@ clset_match(struct XCSF *xcsf, const double *x, const bool cover)
             clset_add(&xcsf->mset, blist[i]->cl);
         }
     }
+    free(blist);
 #else
     // process conditions and actions and build match set list in series
     struct Clist *iter = xcsf->pset.list;
@@ -450,7 +452,7 @@ clset_update(struct XCSF *xcsf, struct Set *set, const double *x,
              const double *y, const bool cur)
 {
 #ifdef PARALLEL_UPDATE
-    struct Clist *blist[set->size];
+    struct Clist **blist = malloc(sizeof(struct Clist *) * set->size);
     struct Clist *iter = set->list;
     for (int i = 0; iter != NULL && i < set->size; ++i) {
         blist[i] = iter;
@@ -460,6 +462,7 @@ clset_update(struct XCSF *xcsf, struct Set *set, const double *x,
     for (int i = 0; i < set->size; ++i) {
         cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);
     }
+    free(blist);
 #else
     struct Clist *iter = set->list;
     while (iter != NULL) {
diff --git a/xcsf/ea.c b/xcsf/ea.c
index 58eaf64..932eeee 100644
--- a/xcsf/ea.c
+++ b/xcsf/ea.c
@@ -79,7 +79,8 @@ ea_subsume(struct XCSF *xcsf, struct Cl *c, struct Cl *c1p, struct Cl *c2p,
     }
     // attempt to find a random subsumer from the set
     else {
-        struct Clist *candidates[set->size];
+        struct Clist **candidates =
+            malloc(sizeof(struct Clist *) * set->size);
         int choices = 0;
         for (struct Clist *iter = set->list; iter != NULL; iter = iter->next) {
             if (cl_subsumer(xcsf, iter->cl) && cl_general(xcsf, iter->cl, c)) {
@@ -96,6 +97,7 @@ ea_subsume(struct XCSF *xcsf, struct Cl *c, struct Cl *c1p, struct Cl *c2p,
         else {
             clset_add(&xcsf->pset, c);
         }
+        free(candidates);
     }
 }
 
diff --git a/xcsf/pa.c b/xcsf/pa.c
index 97f796c..cb4c2e1 100644
--- a/xcsf/pa.c
+++ b/xcsf/pa.c
@@ -67,7 +67,7 @@ pa_build(const struct XCSF *xcsf, const double *x)
     pa_reset(xcsf);
 #ifdef PARALLEL_PRED
     // (parallel) propagate input and compute predictions
-    struct Cl *clist[set->size];
+    struct Cl **clist = malloc(sizeof(struct Cl *) * set->size);
     struct Clist *iter = set->list;
     for (int i = 0; i < set->size; ++i) {
         clist[i] = NULL;
@@ -82,6 +82,7 @@ pa_build(const struct XCSF *xcsf, const double *x)
             cl_predict(xcsf, clist[i], x);
         }
     }
+    free(clist);
 #else
     // (series) propagate input and compute predictions
     const struct Clist *iter = set->list;
-- 
2.43.0


From a6f05478b46f32be81658122ddcc3d27df94755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:25 +0000
Subject: [PATCH 62/66] fix: size the default networks of a Python model for
 its dimensions

---
 xcsf/pybind_wrapper.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 4f624d1..6c8395b 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -103,16 +103,37 @@ class XCS
      */
     explicit XCS(py::kwargs kwargs)
     {
-        reset();
+        // default network outputs depend on the problem dimensions
+        reset(get_dim(kwargs, "x_dim"), get_dim(kwargs, "y_dim"),
+              get_dim(kwargs, "n_actions"));
         set_params(kwargs);
         xcsf_init(&xcs);
     }
 
+    /**
+     * @brief Returns a problem dimension specified in keyword arguments.
+     * @param [in] kwargs Parameters and their values.
+     * @param [in] name Name of the dimension.
+     * @return The dimension or 1 if a valid value was not specified.
+     */
+    static int
+    get_dim(const py::kwargs &kwargs, const char *name)
+    {
+        if (kwargs.contains(name) && py::isinstance<py::int_>(kwargs[name])) {
+            const int dim = kwargs[name].cast<int>();
+            return dim > 0 ? dim : 1;
+        }
+        return 1;
+    }
+
     /**
      * @brief Resets basic constructor variables.
+     * @param [in] x_dim The dimensionality of the input variables.
+     * @param [in] y_dim The dimensionality of the prediction variables.
+     * @param [in] n_actions The total number of possible actions.
      */
     void
-    reset(void)
+    reset(const int x_dim = 1, const int y_dim = 1, const int n_actions = 1)
     {
         state.clear();
         action = 0;
@@ -131,7 +152,7 @@ class XCS
         test_data->y = NULL;
         val_data = NULL;
         metric_counter = 0;
-        param_init(&xcs, 1, 1, 1);
+        param_init(&xcs, x_dim, y_dim, n_actions);
         update_params();
     }
 
-- 
2.43.0


From 36fd9decfd958b126e067dee2973033bf9a25cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:31 +0000
Subject: [PATCH 63/66] fix: keep convolutional filters when the number of
 channels changes

---
 xcsf/neural_layer_convolutional.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/xcsf/neural_layer_convolutional.c b/xcsf/neural_layer_convolutional.c
index d17efd3..6e2f057 100644
--- a/xcsf/neural_layer_convolutional.c
+++ b/xcsf/neural_layer_convolutional.c
@@ -372,7 +372,30 @@ void
 neural_layer_convolutional_resize(struct Layer *l, const struct Layer *prev)
 {
     const int old_n_outputs = l->n_outputs;
-    const int old_n_weights = l->n_weights;
+    const int old_n = l->channels * l->size * l->size; // weights per filter
+    const int n = prev->out_c * l->size * l->size;
+    double *weights = malloc(sizeof(double) * l->n_filters * n);
+    double *weight_updates = malloc(sizeof(double) * l->n_filters * n);
+    bool *weight_active = malloc(sizeof(bool) * l->n_filters * n);
+    for (int i = 0; i < l->n_filters; ++i) {
+        for (int j = 0; j < n; ++j) {
+            if (j < old_n) {
+                weights[i * n + j] = l->weights[i * old_n + j];
+                weight_updates[i * n + j] = l->weight_updates[i * old_n + j];
+                weight_active[i * n + j] = l->weight_active[i * old_n + j];
+            } else {
+                weights[i * n + j] = rand_normal(0, WEIGHT_SD);
+                weight_updates[i * n + j] = 0;
+                weight_active[i * n + j] = true;
+            }
+        }
+    }
+    free(l->weights);
+    free(l->weight_updates);
+    free(l->weight_active);
+    l->weights = weights;
+    l->weight_updates = weight_updates;
+    l->weight_active = weight_active;
     l->width = prev->out_w;
     l->height = prev->out_h;
     l->channels = prev->out_c;
@@ -382,11 +405,6 @@ neural_layer_convolutional_resize(struct Layer *l, const struct Layer *prev)
     l->n_inputs = l->width * l->height * l->channels;
     l->n_weights = l->channels * l->n_filters * l->size * l->size;
     realloc_layer_arrays(l);
-    for (int i = old_n_weights; i < l->n_weights; ++i) {
-        l->weights[i] = rand_normal(0, WEIGHT_SD);
-        l->weight_updates[i] = 0;
-        l->weight_active[i] = true;
-    }
     for (int i = old_n_outputs; i < l->n_outputs; ++i) {
         l->delta[i] = 0;
         l->state[i] = 0;
-- 
2.43.0


From 1d8216b9e500980d04c8825e9df44c8dd1e8813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:47 +0000
Subject: [PATCH 64/66] fix: strings of configuration files lose white space
 and are cut at #

---
 xcsf/config.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/xcsf/config.c b/xcsf/config.c
index b0f861a..56faa5a 100644
--- a/xcsf/config.c
+++ b/xcsf/config.c
@@ -25,18 +25,27 @@
 #include "param.h"
 
 /**
- * @brief Removes tabs/spaces/lf/cr
+ * @brief Removes tabs/spaces/lf/cr and anything after #, except within strings.
  * @param [in] s The line to trim.
  */
 static void
 config_trim(char *s)
 {
     const char *d = s;
-    do {
-        while (*d == ' ' || *d == '\t' || *d == '\n' || *d == '\r') {
+    bool quoted = false;
+    while (*d != '\0' && (quoted || *d != '#')) {
+        if (quoted && *d == '\\' && *(d + 1) != '\0') {
+            *s++ = *d++; // escaped character
+        } else if (*d == '"') {
+            quoted = !quoted;
+        } else if (!quoted &&
+                   (*d == ' ' || *d == '\t' || *d == '\n' || *d == '\r')) {
             ++d;
+            continue;
         }
-    } while ((*s++ = *d++));
+        *s++ = *d++;
+    }
+    *s = '\0';
 }
 
 /**
@@ -60,13 +69,6 @@ config_read(struct XCSF *xcsf, const char *filename)
     char *line_buff = malloc(len + 2);
     while (fgets(line_buff, (int) len + 2, f) != NULL) {
         config_trim(line_buff);
-        if (line_buff[0] == '\0' || line_buff[0] == '#') {
-            continue; // ignore empty lines and lines starting with '#'
-        }
-        char *ptr = strchr(line_buff, '#'); // remove anything after #
-        if (ptr != NULL) {
-            *ptr = '\0';
-        }
         strcat(file_buff, line_buff);
     }
     fclose(f);
-- 
2.43.0


From 76a274dbdcf4ef6fc6cfc6edc7c4f9d8eaab85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:58 +0000
Subject: [PATCH 65/66] fix: release the memory of models discarded in Python

---
 xcsf/pybind_wrapper.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 6c8395b..175f824 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -31,6 +31,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <memory>
 #include <pybind11/numpy.h>
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
@@ -110,6 +111,21 @@ class XCS
         xcsf_init(&xcs);
     }
 
+    XCS(const XCS &) = delete;
+    XCS &
+    operator=(const XCS &) = delete;
+
+    /**
+     * @brief Destructor.
+     */
+    ~XCS()
+    {
+        xcsf_free(&xcs);
+        param_free(&xcs);
+        delete train_data;
+        delete test_data;
+    }
+
     /**
      * @brief Returns a problem dimension specified in keyword arguments.
      * @param [in] kwargs Parameters and their values.
@@ -708,7 +724,7 @@ class XCS
      * @details Uses a temporary binary file.
      * @param state The pickled state of a saved XCSF.
      */
-    static XCS
+    static std::unique_ptr<XCS>
     deserialize(const py::bytes &state)
     {
         // Write the XCSF bytes to a temporary binary file
@@ -719,17 +735,17 @@ class XCS
                    state.cast<std::string>().size());
         file.close();
         // Create a new XCSF instance
-        XCS xcs = XCS();
+        std::unique_ptr<XCS> obj(new XCS());
         // Load XCSF
-        xcsf_load(&xcs.xcs, filename);
+        xcsf_load(&obj->xcs, filename);
         // Update object params
-        xcs.update_params();
+        obj->update_params();
         // Delete the temporary file
         if (std::remove(filename) != 0) {
             perror("Error deleting temporary pickle file");
         }
         // Return the deserialized XCSF
-        return xcs;
+        return obj;
     }
 
     /* GETTERS */
-- 
2.43.0


From e3b2f9c401d181f4bb9927a20127f13fd377b1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:28 +0000
Subject: [PATCH 66/66] fix: release callbacks discarded in Python

---
 xcsf/pybind_wrapper.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 175f824..28114f8 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -1025,21 +1025,16 @@ PYBIND11_MODULE(xcsf, m)
     double (XCS::*error1)(void) = &XCS::error;
     double (XCS::*error2)(const double, const bool, const double) = &XCS::error;
 
-    py::class_<Callback, std::unique_ptr<Callback, py::nodelete>>(m,
-                                                                  "Callback");
+    py::class_<Callback>(m, "Callback");
 
-    py::class_<EarlyStoppingCallback, Callback,
-               std::unique_ptr<EarlyStoppingCallback, py::nodelete>>(
-        m, "EarlyStoppingCallback")
+    py::class_<EarlyStoppingCallback, Callback>(m, "EarlyStoppingCallback")
         .def(py::init<py::str, int, bool, double, int, bool>(),
              "Creates a callback for terminating the fit function early.",
              py::arg("monitor") = "train", py::arg("patience") = 0,
              py::arg("restore_best") = false, py::arg("min_delta") = 0,
              py::arg("start_from") = 0, py::arg("verbose") = true);
 
-    py::class_<CheckpointCallback, Callback,
-               std::unique_ptr<CheckpointCallback, py::nodelete>>(
-        m, "CheckpointCallback")
+    py::class_<CheckpointCallback, Callback>(m, "CheckpointCallback")
         .def(py::init<py::str, std::string, bool, int, bool>(),
              "Creates a callback for automatically saving XCSF.",
              py::arg("monitor") = "train", py::arg("filename") = "xcsf.bin",
-- 
2.43.0

