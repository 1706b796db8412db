From 9cb7c1a527f4a30cb7df4a0c1054a2c27a52f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 01/26] fix: update count_sum when merging dirichlet-discrete
 groups

---
 include/distributions/models/dd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/distributions/models/dd.hpp b/include/distributions/models/dd.hpp
index feb81e9..ec05c23 100644
--- a/include/distributions/models/dd.hpp
+++ b/include/distributions/models/dd.hpp
@@ -155,6 +155,7 @@ struct Group : GroupMixin<Model> {
         for (Value value = 0; value < dim; ++value) {
             counts[value] += source.counts[value];
         }
+        count_sum += source.count_sum;
     }
 
     float score_value(
-- 
2.43.0


From 62464b95495e03c89a22dd4c20b9992e9daab51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 02/26] fix: do not count the merged total twice in sparse
 counters

---
 distributions/dbg/models/dpd.py  | 1 -
 include/distributions/sparse.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/distributions/dbg/models/dpd.py b/distributions/dbg/models/dpd.py
index 7aec7cd..22ae180 100644
--- a/distributions/dbg/models/dpd.py
+++ b/distributions/dbg/models/dpd.py
@@ -229,7 +229,6 @@ class Group(GroupIoMixin):
     def merge(self, shared, source):
         for i, count in source.counts.iteritems():
             self.add_repeated_value(shared, i, count)
-        self.total += source.total
 
     def load(self, raw):
         self.counts = {}
diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index 17723a8..7939b15 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -164,7 +164,6 @@ class SparseCounter {
         for (auto & i : other.map_) {
             add(i.first, i.second);
         }
-        total_ += other.total_;
     }
 
     void rename(key_t old_key, key_t new_key) {
-- 
2.43.0


From 77041c8f00d119eea3bd6f7c02216d896a4c6826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 03/26] fix: nich add_repeated_value on non-empty groups

---
 distributions/dbg/models/nich.py      | 6 +++---
 distributions/hp/models/nich.pyx      | 6 +++---
 include/distributions/models/nich.hpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 69c3d0c..203f8b2 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -139,9 +139,9 @@ class Group(GroupIoMixin):
 
     def add_repeated_value(self, shared, value, count):
         self.count += count
-        delta = count * value - self.mean
-        self.mean += delta / self.count
-        self.count_times_variance += delta * (value - self.mean)
+        delta = value - self.mean
+        self.mean += count * delta / self.count
+        self.count_times_variance += count * delta * (value - self.mean)
 
     def remove_value(self, shared, value):
         total = self.mean * self.count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 622b296..2dbcd30 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -134,9 +134,9 @@ cdef class _Group:
 
     def add_repeated_value(self, _Shared shared, double value, int count):
         self.count += count
-        cdef double delta = count * value - self.mean
-        self.mean += delta / self.count
-        self.count_times_variance += delta * (value - self.mean)
+        cdef double delta = value - self.mean
+        self.mean += count * delta / self.count
+        self.count_times_variance += count * delta * (value - self.mean)
 
     def remove_value(self, _Shared shared, double value):
         cdef double total = self.mean * self.count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 1283ef3..7f2a03d 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -138,9 +138,9 @@ struct Group : GroupMixin<Model> {
             const int & count,
             rng_t &) {
         this->count += count;
-        float delta = count * value - mean;
-        mean += delta / this->count;
-        count_times_variance += delta * (value - mean);
+        float delta = value - mean;
+        mean += count * delta / this->count;
+        count_times_variance += count * delta * (value - mean);
     }
 
     void remove_value(
-- 
2.43.0


From 9b419510b2bf70d8f804c4ab22d85986932ec2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 04/26] fix: merging two empty nich groups divided by zero

---
 distributions/dbg/models/nich.py      | 2 ++
 distributions/hp/models/nich.pyx      | 2 ++
 include/distributions/models/nich.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 203f8b2..dc6cf12 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -157,6 +157,8 @@ class Group(GroupIoMixin):
             self.count_times_variance -= delta * (value - self.mean)
 
     def merge(self, shared, source):
+        if source.count == 0:
+            return
         count = self.count + source.count
         delta = source.mean - self.mean
         source_part = float(source.count) / count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 2dbcd30..c013670 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -152,6 +152,8 @@ cdef class _Group:
             self.count_times_variance -= delta * (value - self.mean)
 
     def merge(self, _Shared shared, _Group source):
+        if source.count == 0:
+            return
         cdef size_t count = self.count + source.count
         cdef double delta = source.mean - self.mean
         cdef double source_part = <double> source.count / count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 7f2a03d..07cc801 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -168,6 +168,9 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Group & source,
             rng_t &) {
+        if (source.count == 0) {
+            return;
+        }
         auto total_count = count + source.count;
         float delta = source.mean - mean;
         float source_part = static_cast<float>(source.count) / total_count;
-- 
2.43.0


From 2c001362fe10819b8d68026561378d5d88a882ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 05/26] fix: low entropy score_remove_value scored against the
 partition before removal

---
 distributions/dbg/clustering.py      | 4 ++++
 include/distributions/clustering.hpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index c576a4e..ed53e11 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -226,6 +226,10 @@ class LowEntropy(SharedIoMixin):
         assert sample_size > 0
 
         group_size -= 1
+        if group_size == 0:
+            nonempty_group_count -= 1
+        sample_size -= 1
+
         return -self.score_add_value(
             group_size,
             nonempty_group_count,
diff --git a/include/distributions/clustering.hpp b/include/distributions/clustering.hpp
index b13d554..d782993 100644
--- a/include/distributions/clustering.hpp
+++ b/include/distributions/clustering.hpp
@@ -301,6 +301,11 @@ struct LowEntropy {
         }
 
         group_size -= 1;
+        if (group_size == 0) {
+            nonempty_group_count -= 1;
+        }
+        sample_size -= 1;
+
         return -score_add_value(
             group_size,
             nonempty_group_count,
-- 
2.43.0


From d079a557a5615700c72c8dd8216aa64554fcf9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 06/26] fix: low entropy score_counts of an empty partition is
 finite

---
 distributions/dbg/clustering.py | 2 +-
 src/clustering.cc               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index ed53e11..e399928 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -160,7 +160,7 @@ class LowEntropy(SharedIoMixin):
                 score += count * log(count)
         assert sample_size <= self.dataset_size
 
-        if sample_size != self.dataset_size:
+        if sample_size > 0 and sample_size != self.dataset_size:
             log_factor = self._approximate_postpred_correction(sample_size)
             score += log_factor * (len(counts) - 1)
             score += self._approximate_dataprob_correction(sample_size)
diff --git a/src/clustering.cc b/src/clustering.cc
index 8578081..cf1468f 100644
--- a/src/clustering.cc
+++ b/src/clustering.cc
@@ -238,7 +238,7 @@ float Clustering<count_t>::LowEntropy::score_counts(
     }
     DIST_ASSERT_LE(sample_size, dataset_size);
 
-    if (sample_size != dataset_size) {
+    if (sample_size > 0 and sample_size != dataset_size) {
         float log_factor = _approximate_postpred_correction(sample_size);
         score += log_factor * (counts.size() - 1);
         score += _approximate_dataprob_correction(sample_size);
-- 
2.43.0


From 6a8d9c9daaaa56c83fa117668b681ba8dc9c8d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:42 +0000
Subject: [PATCH 07/26] fix: sample_from_likelihoods could choose an entry of
 zero likelihood

---
 include/distributions/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index c4b8e59..9475e21 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -324,7 +324,7 @@ inline size_t sample_from_likelihoods(
 
     for (size_t i = 0; DIST_LIKELY(i < size); ++i) {
         t -= likelihoods[i];
-        if (DIST_UNLIKELY(t <= 0)) {
+        if (DIST_UNLIKELY(t <= 0) and DIST_LIKELY(likelihoods[i] > 0)) {
             return i;
         }
     }
-- 
2.43.0


From 6a1e29f61ad11b1684afe601aa9fbcc6c4c3c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:42 +0000
Subject: [PATCH 08/26] fix: dirichlet draws were NaN when all gamma draws
 underflow

---
 src/random.cc | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/random.cc b/src/random.cc
index 7360d45..fd6f94d 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -37,17 +37,43 @@ void sample_dirichlet(
         size_t dim,
         const float * alphas,
         float * probs) {
+    // gamma draws underflow to zero when alphas are small;
+    // negative values in probs remember the alphas of such draws
     float total = 0.f;
+    float alpha_total = 0.f;
     for (size_t i = 0; i < dim; ++i) {
-        if (alphas[i] > 0) {
-            total += probs[i] = sample_gamma(rng, alphas[i]);
+        const float alpha = alphas[i];
+        if (alpha > 0) {
+            float gamma = sample_gamma(rng, alpha);
+            total += gamma;
+            alpha_total += alpha;
+            probs[i] = gamma > 0 ? gamma : -alpha;
         } else {
             probs[i] = 0;
         }
     }
-    float scale = 1.f / total;
-    for (size_t i = 0; i < dim; ++i) {
-        probs[i] *= scale;
+    if (DIST_LIKELY(total > 0)) {
+        float scale = 1.f / total;
+        for (size_t i = 0; i < dim; ++i) {
+            probs[i] = probs[i] > 0 ? probs[i] * scale : 0.f;
+        }
+    } else {
+        // in the limit of small alphas, all mass is on a single entry
+        float t = alpha_total * sample_unif01(rng);
+        size_t last = dim;
+        bool done = false;
+        for (size_t i = 0; i < dim; ++i) {
+            const float alpha = -probs[i];
+            probs[i] = 0.f;
+            if (alpha > 0 and not done) {
+                last = i;
+                t -= alpha;
+                done = t <= 0;
+            }
+        }
+        if (last < dim) {
+            probs[last] = 1.f;
+        }
     }
 }
 
@@ -58,13 +84,13 @@ void sample_dirichlet_safe(
         float * probs,
         float min_value) {
     DIST_ASSERT(min_value >= 0, "bad bound: " << min_value);
-    float total = 0.f;
     for (size_t i = 0; i < dim; ++i) {
         float alpha = alphas[i] + min_value;
         DIST_ASSERT(alpha > 0, "bad alphas[" << i << "] = " << alpha);
-        total += probs[i] = sample_gamma(rng, alpha);
+        probs[i] = alpha;
     }
-    float scale = 1.f / total / (1.f + min_value * dim);
+    sample_dirichlet(rng, dim, probs, probs);
+    float scale = 1.f / (1.f + min_value * dim);
     float shift = min_value / (1.f + min_value * dim);
     for (size_t i = 0; i < dim; ++i) {
         probs[i] = probs[i] * scale + shift;
-- 
2.43.0


From f485101cea54fbeff6990af7bac0fdb2dc5239da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 09/26] fix: sparse counter total was uninitialised before
 clear

---
 include/distributions/sparse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index 7939b15..d6746e5 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -120,6 +120,8 @@ class SparseCounter {
     typedef Value value_t;
     typedef typename map_t::const_iterator iterator;
 
+    SparseCounter() : total_(0) {}
+
     void clear() {
         map_.clear();
         total_ = 0;
-- 
2.43.0


From 3c8d683bff8efde0e6fb412aca72738da21f5e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 10/26] fix: fast_log_factorial overflowed at the largest count

---
 include/distributions/special.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/distributions/special.hpp b/include/distributions/special.hpp
index 1781e32..215e3c3 100644
--- a/include/distributions/special.hpp
+++ b/include/distributions/special.hpp
@@ -209,7 +209,7 @@ inline float fast_log_factorial(const uint32_t & n) {
     if (n < 64) {
         return detail::log_factorial_table[n];
     } else {
-        return fast_lgamma(n + 1);
+        return fast_lgamma(static_cast<float>(n) + 1);
     }
 }
 
-- 
2.43.0


From 4e78b4d7731addabafee8ef636fd888d43ea369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 11/26] fix: dpd message with a stick but no count left the
 shared state inconsistent

---
 include/distributions/models/dpd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/distributions/models/dpd.hpp b/include/distributions/models/dpd.hpp
index d52b9a0..245f46c 100644
--- a/include/distributions/models/dpd.hpp
+++ b/include/distributions/models/dpd.hpp
@@ -118,7 +118,9 @@ struct Shared : SharedMixin<Model> {
             DIST_ASSERT_LT(0, beta);
             betas.add(value, beta);
             beta_sum += beta;
-            counts.add(value, message.counts(i));
+            count_t count = message.counts(i);
+            DIST_ASSERT_LT(0, count);
+            counts.add(value, count);
         }
         DIST_ASSERT_LE(beta_sum, 1 + 1e-4);
         beta0 = std::max(0.0, 1.0 - beta_sum);
-- 
2.43.0


From eb1a3df00157319b3d1ed18931cec967c247ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 12/26] fix: normal-inverse-wishart draws scaled the covariance
 by 1/kappa

---
 include/distributions/random.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index 9475e21..b4306df 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -253,8 +253,9 @@ inline std::pair<Vector, Matrix> sample_normal_inverse_wishart(
         const Matrix & psi,
         float nu,
         rng_t & rng) {
-    Matrix cov = 1./lambda * sample_inverse_wishart(nu, psi, rng);
-    Vector mu = sample_multivariate_normal(mu0, cov, rng);
+    Matrix cov = sample_inverse_wishart(nu, psi, rng);
+    const Matrix mu_cov = cov / lambda;
+    Vector mu = sample_multivariate_normal(mu0, mu_cov, rng);
     return std::make_pair(std::move(mu), std::move(cov));
 }
 
-- 
2.43.0


From e5b4780412c218976826d60fc0189127a1ba0058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 13/26] fix: SparseCounter::rename onto a key in use loses the
 renamed count before raising

---
 include/distributions/sparse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index d6746e5..98f8ddd 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -171,6 +171,8 @@ class SparseCounter {
     void rename(key_t old_key, key_t new_key) {
         auto i = map_.find(old_key);
         if (i != map_.end()) {
+            DIST_ASSERT1(new_key == old_key or not map_.count(new_key),
+                "duplicate key: " << new_key);
             value_t value = i->second;
             map_.erase(i);
             bool success = map_.insert(std::make_pair(new_key, value)).second;
-- 
2.43.0


From 1c77077065c0e30f41606f0e60666389c223090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 14/26] fix: low entropy score of joining a group multiplied
 the error of fast_log by the group size

---
 include/distributions/clustering.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/distributions/clustering.hpp b/include/distributions/clustering.hpp
index d782993..3ce255c 100644
--- a/include/distributions/clustering.hpp
+++ b/include/distributions/clustering.hpp
@@ -286,7 +286,8 @@ struct LowEntropy {
         if (group_size > very_large) {
             return 1.f + fast_log(bigger);
         } else {
-            return fast_log(bigger / group_size) * group_size
+            // fast_log would have its error multiplied by group_size
+            return log1pf(1.f / group_size) * group_size
                  + fast_log(bigger);
         }
     }
-- 
2.43.0


From 4ef5ded049c4754fbc1bfc92c84f447d8af4779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 15/26] fix: lp LowEntropy.protobuf_dump assigned a misspelt
 field

---
 distributions/lp/clustering.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/lp/clustering.pyx b/distributions/lp/clustering.pyx
index b5b89b4..01e68ef 100644
--- a/distributions/lp/clustering.pyx
+++ b/distributions/lp/clustering.pyx
@@ -388,6 +388,6 @@ class LowEntropy(LowEntropy_cy, SharedIoMixin):
     def protobuf_dump(self, message):
         dumped = self.dump()
         message.Clear()
-        message.datset_size = dumped['dataset_size']
+        message.dataset_size = dumped['dataset_size']
 
     Mixture = LowEntropyMixture
-- 
2.43.0


From 106d74b3e3e427486f9df309920ff478fadeb910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 16/26] fix: lp dd wrote past its arrays when loading over 256
 dimensions

---
 distributions/lp/models/dd.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/distributions/lp/models/dd.pyx b/distributions/lp/models/dd.pyx
index f0869eb..c4a547e 100644
--- a/distributions/lp/models/dd.pyx
+++ b/distributions/lp/models/dd.pyx
@@ -49,10 +49,13 @@ EXAMPLES = [
 Value = int
 
 
+MAX_DIM = 256  # of the C++ class
+
 cdef class _Shared(_dd.Shared):
     def load(self, raw):
         alphas = raw['alphas']
         cdef int dim = len(alphas)
+        assert dim <= MAX_DIM, 'too many dimensions: {}'.format(dim)
         self.ptr.dim = dim
         cdef int i
         for i in xrange(dim):
@@ -67,6 +70,7 @@ cdef class _Shared(_dd.Shared):
 
     def protobuf_load(self, message):
         cdef int dim = len(message.alphas)
+        assert dim <= MAX_DIM, 'too many dimensions: {}'.format(dim)
         self.ptr.dim = dim
         cdef int i
         for i in xrange(self.ptr.dim):
@@ -91,7 +95,9 @@ cdef class _Group(_dd.Group):
 
     def load(self, dict raw):
         counts = raw['counts']
-        self.dim = len(counts)
+        cdef int dim = len(counts)
+        assert dim <= MAX_DIM, 'too many dimensions: {}'.format(dim)
+        self.dim = dim
         self.ptr.count_sum = 0
         cdef int i
         for i in xrange(self.dim):
-- 
2.43.0


From 9da181b89e02f178eb7691367faabfead06a3927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 17/26] fix: lp dpd accepted messages of mismatched lengths

---
 distributions/lp/models/dpd.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distributions/lp/models/dpd.pyx b/distributions/lp/models/dpd.pyx
index ef144cb..d887f40 100644
--- a/distributions/lp/models/dpd.pyx
+++ b/distributions/lp/models/dpd.pyx
@@ -103,6 +103,8 @@ cdef class _Shared(_dpd.Shared):
         }
 
     def protobuf_load(self, message):
+        assert len(message.betas) == len(message.values), "invalid message"
+        assert len(message.counts) == len(message.values), "invalid message"
         self.ptr.gamma = message.gamma
         self.ptr.alpha = message.alpha
         self.ptr.betas.clear()
-- 
2.43.0


From f9a19e725c9044adb425c342a4b8593b9177102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 18/26] fix: lp niw accepted matrices whose size does not match
 the vector

---
 distributions/lp/models/niw.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/distributions/lp/models/niw.pyx b/distributions/lp/models/niw.pyx
index 004e8c1..83e891c 100644
--- a/distributions/lp/models/niw.pyx
+++ b/distributions/lp/models/niw.pyx
@@ -103,10 +103,11 @@ Value = np.ndarray
 
 cdef class _Shared(_niw.Shared):
     def load(self, dict raw):
-        # XXX: validate raw['mu'] and raw['psi']
+        D = len(raw['mu'])
+        assert raw['psi'] is not None
+        assert raw['psi'].shape == (D, D)
         self.ptr.mu = to_eigen_vecf(raw['mu'])
         self.ptr.kappa = raw['kappa']
-        assert raw['psi'] is not None
         self.ptr.psi = to_eigen_matf(raw['psi'])
         self.ptr.nu = raw['nu']
 
@@ -144,10 +145,11 @@ class Shared(_Shared, SharedMixin, SharedIoMixin):
 
 cdef class _Group(_niw.Group):
     def load(self, dict raw):
-        # XXX: validate raw['sum_x'] and raw['sum_xxT']
+        D = len(raw['sum_x'])
+        assert raw['sum_xxT'] is not None
+        assert raw['sum_xxT'].shape == (D, D)
         self.ptr.count = raw['count']
         self.ptr.sum_x = to_eigen_vecf(raw['sum_x'])
-        assert raw['sum_xxT'] is not None
         self.ptr.sum_xxT = to_eigen_matf(raw['sum_xxT'])
 
     def dump(self):
-- 
2.43.0


From 2fba1558b74e0d0c3b6c5779079d3468f39f5f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 19/26] fix: dbg sample_discrete could return an outcome of
 zero probability

---
 distributions/dbg/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 99706e6..2a856a0 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -82,7 +82,7 @@ def sample_discrete(probs, total=None):
         dart = numpy.random.rand() * total
         for i, prob in enumerate(probs):
             dart -= prob
-            if dart <= 0:
+            if dart < 0:
                 return i
     LOG.error(
         'imprecision in sample_discrete',
-- 
2.43.0


From 1e8b32ccb047f79f37897306c9e56d1941bcb542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 20/26] fix: dbg sample_student_t left out the degrees of
 freedom

---
 distributions/dbg/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 2a856a0..f216cdb 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -107,7 +107,7 @@ def sample_student_t(dof, mu, Sigma):
     p = len(mu)
     x = numpy.random.chisquare(dof, 1)
     z = numpy.random.multivariate_normal(numpy.zeros(p), Sigma, (1,))
-    return (mu + z / numpy.sqrt(x))[0]
+    return (mu + z * numpy.sqrt(dof / x))[0]
 
 
 def score_student_t(x, nu, mu, sigma):
-- 
2.43.0


From 372bf91d152357e133f18540cb4ca3d8f3e1d002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 21/26] fix: dbg sample_wishart and sample_wishart_v2 used
 wrong degrees of freedom

---
 distributions/dbg/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index f216cdb..6337a70 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -149,7 +149,7 @@ def sample_wishart(nu, Lambda):
     for i in xrange(d):
         if i != 0:
             z[i, :i] = numpy.random.normal(size=(i,))
-        z[i, i] = sqrt(numpy.random.gamma(0.5 * nu - d + 1, 2.0))
+        z[i, i] = sqrt(numpy.random.gamma(0.5 * (nu - i), 2.0))
     return dot(dot(dot(ch, z), z.T), ch.T)
 
 
@@ -165,7 +165,7 @@ def sample_wishart_v2(nu, Lambda):
     for i in xrange(d):
         if i != 0:
             T[i, :i] = numpy.random.normal(size=(i,))
-        T[i, i] = sqrt(chi2.rvs(nu - i + 1))
+        T[i, i] = sqrt(chi2.rvs(nu - i))
     return dot(dot(dot(ch, T), T.T), ch.T)
 
 
-- 
2.43.0


From a785e19b6b7ca57b6e272c9f266c7c9ba1e6b9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:12 +0000
Subject: [PATCH 22/26] fix: lp dpd loaded a negative beta0 when sticks rounded
 to just over one

---
 distributions/lp/models/dpd.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/lp/models/dpd.pyx b/distributions/lp/models/dpd.pyx
index d887f40..be1fd11 100644
--- a/distributions/lp/models/dpd.pyx
+++ b/distributions/lp/models/dpd.pyx
@@ -79,7 +79,7 @@ cdef class _Shared(_dpd.Shared):
         for value, beta in raw_betas.iteritems():
             self.ptr.betas.add(int(value), beta)
             beta0 -= beta
-        self.ptr.beta0 = beta0
+        self.ptr.beta0 = max(0.0, beta0)
         cdef int count
         for value, count in raw_counts.iteritems():
             self.ptr.counts.add(int(value), count)
@@ -119,7 +119,7 @@ cdef class _Shared(_dpd.Shared):
             self.ptr.betas.add(value, beta)
             self.ptr.counts.add(value, message.counts[i])
             beta0 -= beta
-        self.ptr.beta0 = beta0
+        self.ptr.beta0 = max(0.0, beta0)
 
     def protobuf_dump(self, message):
         message.Clear()
-- 
2.43.0


From d4cec6b444d89e9a732a9e7beabe41ee6fde1998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 23/26] fix: lp mixtures read before their groups at negative
 indices

---
 distributions/lp/models/_bb.pyx   | 2 +-
 distributions/lp/models/_bnb.pyx  | 2 +-
 distributions/lp/models/_dd.pyx   | 2 +-
 distributions/lp/models/_dpd.pyx  | 2 +-
 distributions/lp/models/_gp.pyx   | 2 +-
 distributions/lp/models/_nich.pyx | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/distributions/lp/models/_bb.pyx b/distributions/lp/models/_bb.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_bb.pyx
+++ b/distributions/lp/models/_bb.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_bnb.pyx b/distributions/lp/models/_bnb.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_bnb.pyx
+++ b/distributions/lp/models/_bnb.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_dd.pyx b/distributions/lp/models/_dd.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_dd.pyx
+++ b/distributions/lp/models/_dd.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_dpd.pyx b/distributions/lp/models/_dpd.pyx
index c5c7466..0e79b24 100644
--- a/distributions/lp/models/_dpd.pyx
+++ b/distributions/lp/models/_dpd.pyx
@@ -102,7 +102,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_gp.pyx b/distributions/lp/models/_gp.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_gp.pyx
+++ b/distributions/lp/models/_gp.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_nich.pyx b/distributions/lp/models/_nich.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_nich.pyx
+++ b/distributions/lp/models/_nich.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
-- 
2.43.0


From c7ac00aa6e125e13fd978c563f28aaaabade5d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 24/26] fix: lp took strided arrays for contiguous ones and
 ignored arrays of the wrong length

---
 distributions/lp/random.pyx | 2 +-
 distributions/lp/vector.pxd | 4 ++--
 distributions/lp/vector.pyx | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/distributions/lp/random.pyx b/distributions/lp/random.pyx
index c0f1ae2..a60a4c2 100644
--- a/distributions/lp/random.pyx
+++ b/distributions/lp/random.pyx
@@ -105,7 +105,7 @@ def sample_pair_from_urn(list urn):
     return (<object> result.first, <object> result.second)
 
 
-def sample_discrete(numpy.ndarray[numpy.float32_t, ndim=1] probs):
+def sample_discrete(numpy.ndarray[numpy.float32_t, ndim=1, mode='c'] probs):
     cdef size_t size = probs.shape[0]
     cdef float * data = <float *> probs.data
     return sample_discrete_cc(get_rng()[0], size, data)
diff --git a/distributions/lp/vector.pxd b/distributions/lp/vector.pxd
index d557083..7e8d51b 100644
--- a/distributions/lp/vector.pxd
+++ b/distributions/lp/vector.pxd
@@ -99,9 +99,9 @@ cdef extern from "distributions/vector.hpp" namespace "distributions":
 
 cdef void vector_float_from_ndarray(
         VectorFloat & vector_float,
-        numpy.ndarray[numpy.float32_t, ndim=1] ndarray)
+        numpy.ndarray[numpy.float32_t, ndim=1, mode='c'] ndarray) except *
 
 
 cdef void vector_float_to_ndarray(
         VectorFloat & vector_float,
-        numpy.ndarray[numpy.float32_t, ndim=1] ndarray)
+        numpy.ndarray[numpy.float32_t, ndim=1, mode='c'] ndarray) except *
diff --git a/distributions/lp/vector.pyx b/distributions/lp/vector.pyx
index ac79c63..6f62a4d 100644
--- a/distributions/lp/vector.pyx
+++ b/distributions/lp/vector.pyx
@@ -32,7 +32,7 @@ numpy.import_array()
 
 cdef void vector_float_from_ndarray(
         VectorFloat & vector_float,
-        numpy.ndarray[numpy.float32_t, ndim=1] ndarray):
+        numpy.ndarray[numpy.float32_t, ndim=1, mode='c'] ndarray) except *:
     cdef int size = ndarray.shape[0]
     vector_float.resize(size)
     memcpy(vector_float.data(), ndarray.data, size * sizeof(float))
@@ -40,7 +40,7 @@ cdef void vector_float_from_ndarray(
 
 cdef void vector_float_to_ndarray(
         VectorFloat & vector_float,
-        numpy.ndarray[numpy.float32_t, ndim=1] ndarray):
+        numpy.ndarray[numpy.float32_t, ndim=1, mode='c'] ndarray) except *:
     cdef int size = vector_float.size()
     cdef tuple shape = (size,)
     ndarray.resize(shape)
-- 
2.43.0


From ccf7835c2ec2ae049db8e49a5bd912d3941d56c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:37 +0000
Subject: [PATCH 25/26] fix: low entropy score of counts depended on the number
 of empty groups

---
 distributions/dbg/clustering.py | 5 ++++-
 src/clustering.cc               | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index e399928..af2e443 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -154,15 +154,18 @@ class LowEntropy(SharedIoMixin):
         '''
         score = 0.0
         sample_size = 0
+        nonempty_group_count = 0
         for count in counts:
             sample_size += count
+            if count > 0:
+                nonempty_group_count += 1
             if count > 1:
                 score += count * log(count)
         assert sample_size <= self.dataset_size
 
         if sample_size > 0 and sample_size != self.dataset_size:
             log_factor = self._approximate_postpred_correction(sample_size)
-            score += log_factor * (len(counts) - 1)
+            score += log_factor * (nonempty_group_count - 1)
             score += self._approximate_dataprob_correction(sample_size)
         score -= self.log_partition_function(sample_size)
         return score
diff --git a/src/clustering.cc b/src/clustering.cc
index cf1468f..d906304 100644
--- a/src/clustering.cc
+++ b/src/clustering.cc
@@ -230,8 +230,10 @@ float Clustering<count_t>::LowEntropy::score_counts(
         const std::vector<count_t> & counts) const {
     float score = 0.0;
     count_t sample_size = 0;
+    size_t nonempty_group_count = 0;
     for (count_t count : counts) {
         sample_size += count;
+        nonempty_group_count += (count > 0);
         if (count > 1) {
             score += count * fast_log(count);
         }
@@ -240,7 +242,7 @@ float Clustering<count_t>::LowEntropy::score_counts(
 
     if (sample_size > 0 and sample_size != dataset_size) {
         float log_factor = _approximate_postpred_correction(sample_size);
-        score += log_factor * (counts.size() - 1);
+        score += log_factor * (nonempty_group_count - 1);
         score += _approximate_dataprob_correction(sample_size);
     }
     score -= log_partition_function(sample_size);
-- 
2.43.0


From 6055110b971b4af441f0aaf97af70959e6aacd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:34 +0000
Subject: [PATCH 26/26] fix: hp sample_dirichlet divided by zero when every
 gamma draw underflowed

---
 distributions/rng_cc.hpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/distributions/rng_cc.hpp b/distributions/rng_cc.hpp
index 73bc413..510cb82 100644
--- a/distributions/rng_cc.hpp
+++ b/distributions/rng_cc.hpp
@@ -103,14 +103,38 @@ inline void std_random_dirichlet(
         const real_t * alphas,
         real_t * thetas)
 {
+    // gamma draws underflow to zero when alphas are small;
+    // negative values in thetas remember the alphas of such draws
     double total = 0.0;
+    double alpha_total = 0.0;
     for (size_t d = 0; d < D; ++d) {
-        total += thetas[d] = std_random_gamma(rng, alphas[d], 1.0);
+        const double alpha = alphas[d];
+        const real_t gamma = std_random_gamma(rng, alpha, 1.0);
+        total += gamma;
+        alpha_total += alpha;
+        thetas[d] = gamma > 0 ? gamma : -alpha;
     }
 
-    double scale = 1.0 / total;
-    for (size_t d = 0; d < D; ++d) {
-        thetas[d] *= scale;
+    if (total > 0) {
+        for (size_t d = 0; d < D; ++d) {
+            thetas[d] = thetas[d] > 0 ? thetas[d] / total : 0.0;
+        }
+    } else {
+        // in the limit of small alphas, all mass is on a single entry
+        typedef std::uniform_real_distribution<double> dist_t;
+        double t = alpha_total * dist_t()(rng);
+        size_t last = 0;
+        bool done = false;
+        for (size_t d = 0; d < D; ++d) {
+            const double alpha = -thetas[d];
+            thetas[d] = 0.0;
+            if (alpha > 0 && !done) {
+                last = d;
+                t -= alpha;
+                done = t <= 0;
+            }
+        }
+        thetas[last] = 1.0;
     }
 }
 
-- 
2.43.0

