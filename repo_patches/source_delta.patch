From 46129263044e93caf02f96c0e10eca4b6172c038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 01/43] fix: dd Group::merge updates count_sum

---
 include/distributions/models/dd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/distributions/models/dd.hpp b/include/distributions/models/dd.hpp
index feb81e9..ec05c23 100644
--- a/include/distributions/models/dd.hpp
+++ b/include/distributions/models/dd.hpp
@@ -155,6 +155,7 @@ struct Group : GroupMixin<Model> {
         for (Value value = 0; value < dim; ++value) {
             counts[value] += source.counts[value];
         }
+        count_sum += source.count_sum;
     }
 
     float score_value(
-- 
2.43.0


From b0d4388acfc798936e5cf63f9f3766b133c376cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 02/43] fix: SparseCounter::merge counts the other total only
 once

---
 include/distributions/sparse.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index 17723a8..7939b15 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -164,7 +164,6 @@ class SparseCounter {
         for (auto & i : other.map_) {
             add(i.first, i.second);
         }
-        total_ += other.total_;
     }
 
     void rename(key_t old_key, key_t new_key) {
-- 
2.43.0


From de7843cd69336c1b4364028fcacca095b244b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 03/43] fix: nich add_repeated_value matches repeated add_value
 on nonempty groups

---
 distributions/dbg/models/nich.py      | 8 +++++---
 distributions/hp/models/nich.pyx      | 8 +++++---
 include/distributions/models/nich.hpp | 9 ++++++---
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 69c3d0c..982169c 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -138,10 +138,12 @@ class Group(GroupIoMixin):
         self.count_times_variance += delta * (value - self.mean)
 
     def add_repeated_value(self, shared, value, count):
+        if count == 0:
+            return
         self.count += count
-        delta = count * value - self.mean
-        self.mean += delta / self.count
-        self.count_times_variance += delta * (value - self.mean)
+        delta = value - self.mean
+        self.mean += delta * count / self.count
+        self.count_times_variance += count * delta * (value - self.mean)
 
     def remove_value(self, shared, value):
         total = self.mean * self.count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 622b296..52b29d1 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -133,10 +133,12 @@ cdef class _Group:
         self.count_times_variance += delta * (value - self.mean)
 
     def add_repeated_value(self, _Shared shared, double value, int count):
+        if count == 0:
+            return
         self.count += count
-        cdef double delta = count * value - self.mean
-        self.mean += delta / self.count
-        self.count_times_variance += delta * (value - self.mean)
+        cdef double delta = value - self.mean
+        self.mean += delta * count / self.count
+        self.count_times_variance += count * delta * (value - self.mean)
 
     def remove_value(self, _Shared shared, double value):
         cdef double total = self.mean * self.count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 1283ef3..fa4fe1f 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -137,10 +137,13 @@ struct Group : GroupMixin<Model> {
             const Value & value,
             const int & count,
             rng_t &) {
+        if (count == 0) {
+            return;
+        }
         this->count += count;
-        float delta = count * value - mean;
-        mean += delta / this->count;
-        count_times_variance += delta * (value - mean);
+        float delta = value - mean;
+        mean += delta * count / this->count;
+        count_times_variance += count * delta * (value - mean);
     }
 
     void remove_value(
-- 
2.43.0


From 7d450287c21c4b4cd06b7814e792c4798ef4cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 04/43] fix: nich merge of two empty groups no longer divides
 by zero

---
 distributions/dbg/models/nich.py      | 2 ++
 distributions/hp/models/nich.pyx      | 2 ++
 include/distributions/models/nich.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 982169c..05baa83 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -160,6 +160,8 @@ class Group(GroupIoMixin):
 
     def merge(self, shared, source):
         count = self.count + source.count
+        if count == 0:
+            return
         delta = source.mean - self.mean
         source_part = float(source.count) / count
         cross_part = self.count * source_part
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 52b29d1..97fa947 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -155,6 +155,8 @@ cdef class _Group:
 
     def merge(self, _Shared shared, _Group source):
         cdef size_t count = self.count + source.count
+        if count == 0:
+            return
         cdef double delta = source.mean - self.mean
         cdef double source_part = <double> source.count / count
         cdef double cross_part = self.count * source_part
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index fa4fe1f..608c344 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -172,6 +172,9 @@ struct Group : GroupMixin<Model> {
             const Group & source,
             rng_t &) {
         auto total_count = count + source.count;
+        if (total_count == 0) {
+            return;
+        }
         float delta = source.mean - mean;
         float source_part = static_cast<float>(source.count) / total_count;
         float cross_part = count * source_part;
-- 
2.43.0


From 2f6024f72e8d503abbd075e9775bc5a4c1caeb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 05/43] fix: LowEntropy score_remove_value scores the state
 after removal

---
 distributions/dbg/clustering.py      | 3 +++
 include/distributions/clustering.hpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index c576a4e..1c3aa98 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -226,6 +226,9 @@ class LowEntropy(SharedIoMixin):
         assert sample_size > 0
 
         group_size -= 1
+        if group_size == 0:
+            nonempty_group_count -= 1
+        sample_size -= 1
         return -self.score_add_value(
             group_size,
             nonempty_group_count,
diff --git a/include/distributions/clustering.hpp b/include/distributions/clustering.hpp
index b13d554..d782993 100644
--- a/include/distributions/clustering.hpp
+++ b/include/distributions/clustering.hpp
@@ -301,6 +301,11 @@ struct LowEntropy {
         }
 
         group_size -= 1;
+        if (group_size == 0) {
+            nonempty_group_count -= 1;
+        }
+        sample_size -= 1;
+
         return -score_add_value(
             group_size,
             nonempty_group_count,
-- 
2.43.0


From 0e2996c36ef5e62529f2195e2c892b9644bb3109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 06/43] fix: LowEntropy score_counts ignores empty groups

---
 distributions/dbg/clustering.py | 5 ++++-
 src/clustering.cc               | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index 1c3aa98..bcd291a 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -154,15 +154,18 @@ class LowEntropy(SharedIoMixin):
         '''
         score = 0.0
         sample_size = 0
+        nonempty_group_count = 0
         for count in counts:
             sample_size += count
+            if count:
+                nonempty_group_count += 1
             if count > 1:
                 score += count * log(count)
         assert sample_size <= self.dataset_size
 
         if sample_size != self.dataset_size:
             log_factor = self._approximate_postpred_correction(sample_size)
-            score += log_factor * (len(counts) - 1)
+            score += log_factor * (nonempty_group_count - 1)
             score += self._approximate_dataprob_correction(sample_size)
         score -= self.log_partition_function(sample_size)
         return score
diff --git a/src/clustering.cc b/src/clustering.cc
index 8578081..7d47dca 100644
--- a/src/clustering.cc
+++ b/src/clustering.cc
@@ -230,8 +230,12 @@ float Clustering<count_t>::LowEntropy::score_counts(
         const std::vector<count_t> & counts) const {
     float score = 0.0;
     count_t sample_size = 0;
+    size_t nonempty_group_count = 0;
     for (count_t count : counts) {
         sample_size += count;
+        if (count) {
+            nonempty_group_count += 1;
+        }
         if (count > 1) {
             score += count * fast_log(count);
         }
@@ -240,7 +244,7 @@ float Clustering<count_t>::LowEntropy::score_counts(
 
     if (sample_size != dataset_size) {
         float log_factor = _approximate_postpred_correction(sample_size);
-        score += log_factor * (counts.size() - 1);
+        score += log_factor * (nonempty_group_count - 1);
         score += _approximate_dataprob_correction(sample_size);
     }
     score -= log_partition_function(sample_size);
-- 
2.43.0


From 4db751ee1fac65c0387acaf4bb4c49a51500337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 07/43] fix: typo in lp LowEntropy.protobuf_dump

---
 distributions/lp/clustering.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/lp/clustering.pyx b/distributions/lp/clustering.pyx
index b5b89b4..01e68ef 100644
--- a/distributions/lp/clustering.pyx
+++ b/distributions/lp/clustering.pyx
@@ -388,6 +388,6 @@ class LowEntropy(LowEntropy_cy, SharedIoMixin):
     def protobuf_dump(self, message):
         dumped = self.dump()
         message.Clear()
-        message.datset_size = dumped['dataset_size']
+        message.dataset_size = dumped['dataset_size']
 
     Mixture = LowEntropyMixture
-- 
2.43.0


From a81c61301e9f1fc11102f54b88fc0d750764be7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 08/43] fix: dbg dpd Group.merge counts the source total only
 once

---
 distributions/dbg/models/dpd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/distributions/dbg/models/dpd.py b/distributions/dbg/models/dpd.py
index 7aec7cd..22ae180 100644
--- a/distributions/dbg/models/dpd.py
+++ b/distributions/dbg/models/dpd.py
@@ -229,7 +229,6 @@ class Group(GroupIoMixin):
     def merge(self, shared, source):
         for i, count in source.counts.iteritems():
             self.add_repeated_value(shared, i, count)
-        self.total += source.total
 
     def load(self, raw):
         self.counts = {}
-- 
2.43.0


From e4b3324d44ebee91cb080329dbf1b1fc34d329e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 09/43] fix: normal-inverse-Wishart sampler scales only the
 covariance of the mean

---
 include/distributions/random.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index c4b8e59..2c97460 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -253,8 +253,9 @@ inline std::pair<Vector, Matrix> sample_normal_inverse_wishart(
         const Matrix & psi,
         float nu,
         rng_t & rng) {
-    Matrix cov = 1./lambda * sample_inverse_wishart(nu, psi, rng);
-    Vector mu = sample_multivariate_normal(mu0, cov, rng);
+    Matrix cov = sample_inverse_wishart(nu, psi, rng);
+    Matrix mu_cov = 1./lambda * cov;
+    Vector mu = sample_multivariate_normal(mu0, mu_cov, rng);
     return std::make_pair(std::move(mu), std::move(cov));
 }
 
-- 
2.43.0


From 0a9b3ac2b324bc87500b20612d23d33479994f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 10/43] fix: dbg Wishart samplers use nu - i degrees of freedom
 on the diagonal

---
 distributions/dbg/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 99706e6..105bc93 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -149,7 +149,7 @@ def sample_wishart(nu, Lambda):
     for i in xrange(d):
         if i != 0:
             z[i, :i] = numpy.random.normal(size=(i,))
-        z[i, i] = sqrt(numpy.random.gamma(0.5 * nu - d + 1, 2.0))
+        z[i, i] = sqrt(numpy.random.gamma(0.5 * (nu - i), 2.0))
     return dot(dot(dot(ch, z), z.T), ch.T)
 
 
@@ -165,7 +165,7 @@ def sample_wishart_v2(nu, Lambda):
     for i in xrange(d):
         if i != 0:
             T[i, :i] = numpy.random.normal(size=(i,))
-        T[i, i] = sqrt(chi2.rvs(nu - i + 1))
+        T[i, i] = sqrt(chi2.rvs(nu - i))
     return dot(dot(dot(ch, T), T.T), ch.T)
 
 
-- 
2.43.0


From 63c671a9cdb411d7b26d3c2a868cbf552cab6cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 11/43] fix: dbg sample_student_t divides by sqrt(chi2 / dof)

---
 distributions/dbg/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 105bc93..d0e6812 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -107,7 +107,7 @@ def sample_student_t(dof, mu, Sigma):
     p = len(mu)
     x = numpy.random.chisquare(dof, 1)
     z = numpy.random.multivariate_normal(numpy.zeros(p), Sigma, (1,))
-    return (mu + z / numpy.sqrt(x))[0]
+    return (mu + z / numpy.sqrt(x / dof))[0]
 
 
 def score_student_t(x, nu, mu, sigma):
-- 
2.43.0


From 1ad1fe6ee22b1d7c964b6dde576533b033aa6036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 12/43] fix: dbg sample_normal takes a variance as its
 signature says

---
 distributions/dbg/models/nich.py | 4 ++--
 distributions/dbg/random.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 05baa83..cc85b2a 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -231,10 +231,10 @@ class Sampler(object):
         # Sample from the inverse-chi^2 using the transform from the chi^2
         sigmasq_star = post.nu * post.sigmasq / sample_chi2(post.nu)
         self.sigma = sqrt(sigmasq_star)
-        self.mu = sample_normal(post.mu, sqrt(sigmasq_star / post.kappa))
+        self.mu = sample_normal(post.mu, sigmasq_star / post.kappa)
 
     def eval(self, shared):
-        return sample_normal(self.mu, self.sigma)
+        return sample_normal(self.mu, self.sigma ** 2)
 
 
 def sample_group(shared, size):
diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index d0e6812..75eac19 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -96,7 +96,7 @@ def sample_discrete(probs, total=None):
 
 
 def sample_normal(mu, sigmasq):
-    return norm.rvs(mu, sigmasq)
+    return norm.rvs(mu, sqrt(sigmasq))
 
 
 def sample_chi2(nu):
-- 
2.43.0


From 1049be44645aa4721c70505390461ac8949e6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 13/43] fix: lp dd loads set the group dimension and reject
 oversized dimensions

---
 distributions/lp/models/_dd_h.pxd | 1 +
 distributions/lp/models/dd.pyx    | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/distributions/lp/models/_dd_h.pxd b/distributions/lp/models/_dd_h.pxd
index 42af5c9..11ba50a 100644
--- a/distributions/lp/models/_dd_h.pxd
+++ b/distributions/lp/models/_dd_h.pxd
@@ -42,6 +42,7 @@ cdef extern from "distributions/models/dd.hpp" namespace "distributions::Dirichl
 
 
     cppclass Group:
+        int dim
         int count_sum
         int counts[]
         void init (Shared &, rng_t &) nogil except +
diff --git a/distributions/lp/models/dd.pyx b/distributions/lp/models/dd.pyx
index f0869eb..eee112d 100644
--- a/distributions/lp/models/dd.pyx
+++ b/distributions/lp/models/dd.pyx
@@ -53,6 +53,7 @@ cdef class _Shared(_dd.Shared):
     def load(self, raw):
         alphas = raw['alphas']
         cdef int dim = len(alphas)
+        assert dim <= 256, "too many values"
         self.ptr.dim = dim
         cdef int i
         for i in xrange(dim):
@@ -67,6 +68,7 @@ cdef class _Shared(_dd.Shared):
 
     def protobuf_load(self, message):
         cdef int dim = len(message.alphas)
+        assert dim <= 256, "too many values"
         self.ptr.dim = dim
         cdef int i
         for i in xrange(self.ptr.dim):
@@ -92,6 +94,8 @@ cdef class _Group(_dd.Group):
     def load(self, dict raw):
         counts = raw['counts']
         self.dim = len(counts)
+        assert self.dim <= 256, "too many values"
+        self.ptr.dim = self.dim
         self.ptr.count_sum = 0
         cdef int i
         for i in xrange(self.dim):
-- 
2.43.0


From af15d787337ad0699c7de313e98eaf4acfce8de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 14/43] fix: lp dpd loads and dumps values above 2**31

---
 distributions/lp/models/dpd.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/distributions/lp/models/dpd.pyx b/distributions/lp/models/dpd.pyx
index ef144cb..ee00de2 100644
--- a/distributions/lp/models/dpd.pyx
+++ b/distributions/lp/models/dpd.pyx
@@ -73,7 +73,7 @@ cdef class _Shared(_dpd.Shared):
         self.ptr.counts.clear()
         cdef dict raw_betas = raw['betas']
         cdef dict raw_counts = raw['counts']
-        cdef int value
+        cdef unsigned value
         cdef float beta
         cdef double beta0 = 1.0
         for value, beta in raw_betas.iteritems():
@@ -89,7 +89,7 @@ cdef class _Shared(_dpd.Shared):
         cdef dict counts = {}
         cdef SparseFloat.iterator it = self.ptr.betas.begin()
         cdef SparseFloat.iterator end = self.ptr.betas.end()
-        cdef int value
+        cdef unsigned value
         while it != end:
             value = deref(it).first
             betas[value] = float(deref(it).second)
@@ -108,7 +108,7 @@ cdef class _Shared(_dpd.Shared):
         self.ptr.betas.clear()
         self.ptr.counts.clear()
         cdef int i
-        cdef int value
+        cdef unsigned value
         cdef float beta
         cdef double beta0 = 1.0
         for i in xrange(len(message.betas)):
@@ -125,7 +125,7 @@ cdef class _Shared(_dpd.Shared):
         message.alpha = self.ptr.alpha
         cdef SparseFloat.iterator it = self.ptr.betas.begin()
         cdef SparseFloat.iterator end = self.ptr.betas.end()
-        cdef int value
+        cdef unsigned value
         while it != end:
             value = deref(it).first
             message.values.append(value)
@@ -144,7 +144,7 @@ cdef class _Group(_dpd.Group):
         cdef SparseCounter * counts = & self.ptr.counts
         counts.clear()
         cdef dict raw_counts = raw['counts']
-        cdef int value
+        cdef unsigned value
         cdef int count
         for value, count in raw_counts.iteritems():
             counts.init_count(value, count)
-- 
2.43.0


From 3d220cf949c8ef1a18d5894be3b17e98a4566ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 15/43] fix: lp dpd loads never leave beta0 negative

---
 distributions/lp/models/dpd.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/lp/models/dpd.pyx b/distributions/lp/models/dpd.pyx
index ee00de2..269a13c 100644
--- a/distributions/lp/models/dpd.pyx
+++ b/distributions/lp/models/dpd.pyx
@@ -79,7 +79,7 @@ cdef class _Shared(_dpd.Shared):
         for value, beta in raw_betas.iteritems():
             self.ptr.betas.add(int(value), beta)
             beta0 -= beta
-        self.ptr.beta0 = beta0
+        self.ptr.beta0 = max(0.0, beta0)
         cdef int count
         for value, count in raw_counts.iteritems():
             self.ptr.counts.add(int(value), count)
@@ -117,7 +117,7 @@ cdef class _Shared(_dpd.Shared):
             self.ptr.betas.add(value, beta)
             self.ptr.counts.add(value, message.counts[i])
             beta0 -= beta
-        self.ptr.beta0 = beta0
+        self.ptr.beta0 = max(0.0, beta0)
 
     def protobuf_dump(self, message):
         message.Clear()
-- 
2.43.0


From 1a2411624dbc80dbca59ae675b67e8f1e7b7db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 16/43] fix: SparseCounter initializes its total

---
 include/distributions/sparse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index 7939b15..d6746e5 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -120,6 +120,8 @@ class SparseCounter {
     typedef Value value_t;
     typedef typename map_t::const_iterator iterator;
 
+    SparseCounter() : total_(0) {}
+
     void clear() {
         map_.clear();
         total_ = 0;
-- 
2.43.0


From 2b065a0a161e24dfd803a301109ffefbd178776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 17/43] fix: inverse Wishart sampler passes integer sizes to
 numpy

---
 distributions/vendor/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/vendor/stats.py b/distributions/vendor/stats.py
index 7fbbac6..12d6758 100644
--- a/distributions/vendor/stats.py
+++ b/distributions/vendor/stats.py
@@ -165,10 +165,10 @@ def sample_invwishart(S,nu):
     chol = np.linalg.cholesky(S)
 
     if (nu <= 81+n) and (nu == np.round(nu)):
-        x = np.random.randn(nu,n)
+        x = np.random.randn(int(nu),n)
     else:
         x = np.diag(np.sqrt(np.atleast_1d(stats.chi2.rvs(nu-np.arange(n)))))
-        x[np.triu_indices_from(x,1)] = np.random.randn(n*(n-1)/2)
+        x[np.triu_indices_from(x,1)] = np.random.randn(n*(n-1)//2)
     R = np.linalg.qr(x,'r')
     T = scipy.linalg.solve_triangular(R.T,chol.T,lower=True).T
     return np.dot(T,T.T)
-- 
2.43.0


From 2f1b1013fbc7c62212aeda9ee1932e255505c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 18/43] fix: scores_to_probs accepts integer scores

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index 40af6a9..f8a841a 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -31,7 +31,7 @@ from collections import defaultdict
 
 
 def scores_to_probs(scores):
-    scores = numpy.array(scores)
+    scores = numpy.array(scores, dtype=float)
     scores -= scores.max()
     probs = numpy.exp(scores, out=scores)
     probs /= probs.sum()
-- 
2.43.0


From ada34cc02822332fbe03dff86563ee666684f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 19/43] fix: multinomial_goodness_of_fit computes Pearson's
 statistic

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index f8a841a..a41ca88 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -84,7 +84,7 @@ def multinomial_goodness_of_fit(
             variance = total_count * p * (1 - p)
             assert variance > 1,\
                 'WARNING goodness of fit is inaccurate; use more samples'
-            chi_squared += (c - mean) ** 2 / variance
+            chi_squared += (c - mean) ** 2 / mean
             dof += 1
         else:
             print 'WARNING zero probability in goodness-of-fit test'
-- 
2.43.0


From f3a355a888f67e6a851fe292b82f46d300cd330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 20/43] fix: impossible samples have goodness-of-fit p-value 0

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index a41ca88..df614eb 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -89,7 +89,7 @@ def multinomial_goodness_of_fit(
         else:
             print 'WARNING zero probability in goodness-of-fit test'
             if c > 0:
-                return float('inf')
+                return 0.0
 
     if not truncated:
         dof -= 1
-- 
2.43.0


From 77df9a3e00902d2a3700283fe47f40cd93734c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 21/43] fix: unif01_goodness_of_fit puts the sample 1.0 in the
 last bin

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index df614eb..66ef217 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -110,7 +110,7 @@ def unif01_goodness_of_fit(samples, plot=False):
     probs = numpy.ones(bin_count, dtype=numpy.float) / bin_count
     counts = numpy.zeros(bin_count, dtype=numpy.int)
     for sample in samples:
-        counts[int(bin_count * sample)] += 1
+        counts[min(int(bin_count * sample), bin_count - 1)] += 1
     return multinomial_goodness_of_fit(probs, counts, len(samples), plot=plot)
 
 
-- 
2.43.0


From 0e83bff439a39ee4386b990fc6c0700bbdb39137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 22/43] fix: JSON streams and compressed JSON files work where
 str is not bytes

---
 distributions/io/stream.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/distributions/io/stream.py b/distributions/io/stream.py
index dbe20a0..f392107 100644
--- a/distributions/io/stream.py
+++ b/distributions/io/stream.py
@@ -25,6 +25,7 @@
 # TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE
 # USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import io
 import os
 import bz2
 import gzip
@@ -48,11 +49,14 @@ def open_compressed(filename, mode='r'):
         if dirname:
             mkdir_p(dirname)
     if filename.endswith('.bz2'):
-        return bz2.BZ2File(filename, mode.replace('b', ''))
+        fd = bz2.BZ2File(filename, mode.replace('b', ''))
     elif filename.endswith('.gz'):
-        return gzip.GzipFile(filename, mode)
+        fd = gzip.GzipFile(filename, mode)
     else:
-        return file(filename, mode)
+        return open(filename, mode)
+    if bytes is not str and 'b' not in mode:
+        fd = io.TextIOWrapper(fd, encoding='utf-8')
+    return fd
 
 
 def json_dump(data, filename, **kwargs):
@@ -115,7 +119,7 @@ class json_stream_load(object):
     files, however in practice this is ~40x slower.
     '''
     def __init__(self, filename):
-        self.fd = open_compressed(filename, 'rb')
+        self.fd = open_compressed(filename, 'r')
         line = self.fd.readline(2)
         if line != '[\n':
             raise IOError(
-- 
2.43.0


From f2b3c910988c35f3264e82561b2eb4b4c837aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 23/43] fix: protobuf_stream_write accepts bytes

---
 distributions/io/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/io/stream.py b/distributions/io/stream.py
index f392107..524ec70 100644
--- a/distributions/io/stream.py
+++ b/distributions/io/stream.py
@@ -143,7 +143,7 @@ class json_stream_load(object):
 
 
 def protobuf_stream_write(item, fd):
-    assert isinstance(item, str), item
+    assert isinstance(item, bytes), item
     fd.write(struct.pack('<I', len(item)))
     fd.write(item)
 
-- 
2.43.0


From 9e5d9fbbf86254f3f2326a812bfa1e388f20c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 24/43] fix: discrete samplers never return an index of zero
 likelihood

---
 distributions/dbg/random.py      |  2 +-
 include/distributions/random.hpp | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 75eac19..04eada6 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -82,7 +82,7 @@ def sample_discrete(probs, total=None):
         dart = numpy.random.rand() * total
         for i, prob in enumerate(probs):
             dart -= prob
-            if dart <= 0:
+            if dart < 0:
                 return i
     LOG.error(
         'imprecision in sample_discrete',
diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index 2c97460..abbb99c 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -310,7 +310,13 @@ inline size_t sample_discrete(
             return i;
         }
     }
-    return dim - 1;
+
+    // rounding error in probs: fall back to the last positive entry
+    size_t last = dim - 1;
+    while (last > 0 and not (probs[last] > 0)) {
+        --last;
+    }
+    return last;
 }
 
 template<class Alloc>
@@ -325,12 +331,17 @@ inline size_t sample_from_likelihoods(
 
     for (size_t i = 0; DIST_LIKELY(i < size); ++i) {
         t -= likelihoods[i];
-        if (DIST_UNLIKELY(t <= 0)) {
+        if (DIST_UNLIKELY(t < 0)) {
             return i;
         }
     }
 
-    return size - 1;
+    // rounding error in total_likelihood: fall back to the last positive entry
+    size_t last = size - 1;
+    while (last > 0 and not (likelihoods[last] > 0)) {
+        --last;
+    }
+    return last;
 }
 
 template<class Alloc>
-- 
2.43.0


From c29caf5a090ddc67244be04d9a598cc22117973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 25/43] fix: sample_dirichlet survives underflow of all gamma
 samples

---
 src/random.cc | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/random.cc b/src/random.cc
index 7360d45..b7abbd5 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -25,6 +25,9 @@
 // TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE
 // USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+#include <algorithm>
+#include <limits>
+#include <vector>
 #include <distributions/random.hpp>
 #include <distributions/aligned_allocator.hpp>
 
@@ -32,22 +35,45 @@ namespace distributions {
 
 rng_t global_rng;
 
+// When all alphas are tiny, all gamma samples can underflow.
+// Then all mass is on one component, chosen with probability ~ alpha.
+static float fix_gamma_underflow(
+        rng_t & rng,
+        size_t dim,
+        const float * alphas,
+        float alpha_shift,
+        std::vector<float> & gammas,
+        float total) {
+    if (DIST_LIKELY(total >= std::numeric_limits<float>::min()) or dim == 0) {
+        return total;
+    }
+    std::vector<float> likelihoods(dim);
+    float total_alpha = 0.f;
+    for (size_t i = 0; i < dim; ++i) {
+        gammas[i] = 0.f;
+        likelihoods[i] = std::max(0.f, alphas[i] + alpha_shift);
+        total_alpha += likelihoods[i];
+    }
+    gammas[sample_from_likelihoods(rng, likelihoods, total_alpha)] = 1.f;
+    return 1.f;
+}
+
 void sample_dirichlet(
         rng_t & rng,
         size_t dim,
         const float * alphas,
         float * probs) {
+    std::vector<float> gammas(dim, 0.f);  // since alphas may alias probs
     float total = 0.f;
     for (size_t i = 0; i < dim; ++i) {
         if (alphas[i] > 0) {
-            total += probs[i] = sample_gamma(rng, alphas[i]);
-        } else {
-            probs[i] = 0;
+            total += gammas[i] = sample_gamma(rng, alphas[i]);
         }
     }
+    total = fix_gamma_underflow(rng, dim, alphas, 0.f, gammas, total);
     float scale = 1.f / total;
     for (size_t i = 0; i < dim; ++i) {
-        probs[i] *= scale;
+        probs[i] = gammas[i] * scale;
     }
 }
 
@@ -58,16 +84,18 @@ void sample_dirichlet_safe(
         float * probs,
         float min_value) {
     DIST_ASSERT(min_value >= 0, "bad bound: " << min_value);
+    std::vector<float> gammas(dim, 0.f);  // since alphas may alias probs
     float total = 0.f;
     for (size_t i = 0; i < dim; ++i) {
         float alpha = alphas[i] + min_value;
         DIST_ASSERT(alpha > 0, "bad alphas[" << i << "] = " << alpha);
-        total += probs[i] = sample_gamma(rng, alpha);
+        total += gammas[i] = sample_gamma(rng, alpha);
     }
+    total = fix_gamma_underflow(rng, dim, alphas, min_value, gammas, total);
     float scale = 1.f / total / (1.f + min_value * dim);
     float shift = min_value / (1.f + min_value * dim);
     for (size_t i = 0; i < dim; ++i) {
-        probs[i] = probs[i] * scale + shift;
+        probs[i] = gammas[i] * scale + shift;
     }
 }
 
-- 
2.43.0


From e5af57f2703363e2915d05190a32a91d17faf4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 26/43] fix: lp wrappers honour the strides of numpy score and
 probability arrays

---
 distributions/lp/random.pyx | 2 ++
 distributions/lp/vector.pyx | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/distributions/lp/random.pyx b/distributions/lp/random.pyx
index c0f1ae2..c4147cc 100644
--- a/distributions/lp/random.pyx
+++ b/distributions/lp/random.pyx
@@ -106,6 +106,8 @@ def sample_pair_from_urn(list urn):
 
 
 def sample_discrete(numpy.ndarray[numpy.float32_t, ndim=1] probs):
+    if probs.strides[0] != sizeof(float):
+        probs = probs.copy()
     cdef size_t size = probs.shape[0]
     cdef float * data = <float *> probs.data
     return sample_discrete_cc(get_rng()[0], size, data)
diff --git a/distributions/lp/vector.pyx b/distributions/lp/vector.pyx
index ac79c63..a89f433 100644
--- a/distributions/lp/vector.pyx
+++ b/distributions/lp/vector.pyx
@@ -34,8 +34,10 @@ cdef void vector_float_from_ndarray(
         VectorFloat & vector_float,
         numpy.ndarray[numpy.float32_t, ndim=1] ndarray):
     cdef int size = ndarray.shape[0]
+    cdef int i
     vector_float.resize(size)
-    memcpy(vector_float.data(), ndarray.data, size * sizeof(float))
+    for i in xrange(size):  # ndarray may be strided
+        vector_float[i] = ndarray[i]
 
 
 cdef void vector_float_to_ndarray(
@@ -43,5 +45,10 @@ cdef void vector_float_to_ndarray(
         numpy.ndarray[numpy.float32_t, ndim=1] ndarray):
     cdef int size = vector_float.size()
     cdef tuple shape = (size,)
+    cdef int i
+    if ndarray.shape[0] == size:
+        for i in xrange(size):  # ndarray may be strided
+            ndarray[i] = vector_float[i]
+        return
     ndarray.resize(shape)
     memcpy(ndarray.data, vector_float.data(), size * sizeof(float))
-- 
2.43.0


From 91d09ca0d3c4c8933736250578501106e75e66db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 27/43] fix: fast_lgamma was off by up to 0.8% from 2**30 on

The highest-order coefficients of the segments from 2**30 are denormal
floats, which -ffast-math flushes to zero.
---
 include/distributions/special.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/distributions/special.hpp b/include/distributions/special.hpp
index 1781e32..aa5b735 100644
--- a/include/distributions/special.hpp
+++ b/include/distributions/special.hpp
@@ -118,7 +118,10 @@ inline float fast_lgamma(float y) {
     //
     // see loggamma.py for the code used to generate the coefficient table
 
-    if (DIST_UNLIKELY(y < 2.5f or 4294967295.0f <= y)) {
+    // Beyond 2**30 coefficients are denormal, and are flushed to zero when
+    // compiled with -ffast-math.
+
+    if (DIST_UNLIKELY(y < 2.5f or 1073741824.0f <= y)) {
         return lgammaf(y);
     }
 
-- 
2.43.0


From 1374672fb3b46d32ecae9a44043f903d8a0ea03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 28/43] fix: fast_lgamma_nu lost all digits from 2**32 on

The difference of two lgammaf values above 1e10 cancels; the asymptotic
expansion is exact to single precision there.
---
 include/distributions/special.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/distributions/special.hpp b/include/distributions/special.hpp
index aa5b735..9664d08 100644
--- a/include/distributions/special.hpp
+++ b/include/distributions/special.hpp
@@ -246,9 +246,12 @@ inline float fast_lgamma_nu(float nu) {
 
     // see loggamma.py:lstudent for coeff gen
 
-    if (DIST_UNLIKELY(nu < 0.0625f or 4294967295.0f <= nu)) {
+    if (DIST_UNLIKELY(nu < 0.0625f)) {
         return lgammaf(nu * 0.5f + 0.5f) - lgammaf(nu * 0.5f);
     }
+    if (DIST_UNLIKELY(4294967295.0f <= nu)) {
+        return 0.5f * logf(nu * 0.5f);  // the difference would cancel
+    }
 
     // adapted from:
     // http://www-graphics.stanford.edu/~seander/bithacks.html#IntegerLogLookup
-- 
2.43.0


From fe69c9135f93a0dc1f1e15b1f121de68df28f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 29/43] fix: fast_exp returned garbage outside of [-2**31,
 88.72]

The range check compared the argument converted to an integer with the
bit pattern of 88.f, so large arguments of either sign, including minus
infinity, were never clamped.
---
 include/distributions/vendor/fmath.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/distributions/vendor/fmath.hpp b/include/distributions/vendor/fmath.hpp
index b7bc029..2782b9c 100644
--- a/include/distributions/vendor/fmath.hpp
+++ b/include/distributions/vendor/fmath.hpp
@@ -155,7 +155,7 @@ struct ExpVar {
 	{
 		float log_2 = ::logf(2.0f);
 		for (int i = 0; i < 8; i++) {
-			maxX[i] = 88;
+			maxX[i] = 88.72f;
 			minX[i] = -88;
 			a[i] = n / log_2;
 			b[i] = log_2 / n;
@@ -444,11 +444,8 @@ inline float exp(float x)
 #if 1
 	__m128 x1 = _mm_set_ss(x);
 
-	int limit = _mm_cvtss_si32(x1) & 0x7fffffff;
-	if (limit > ExpVar<>::f88) {
-		x1 = _mm_min_ss(x1, _mm_load_ss(expVar.maxX));
-		x1 = _mm_max_ss(x1, _mm_load_ss(expVar.minX));
-	}
+	x1 = _mm_min_ss(_mm_load_ss(expVar.maxX), x1);
+	x1 = _mm_max_ss(_mm_load_ss(expVar.minX), x1);
 
 	int r = _mm_cvtss_si32(_mm_mul_ss(x1, _mm_load_ss(expVar.a)));
 	unsigned int v = r & mask(expVar.s);
-- 
2.43.0


From 9119e139b616485e38f8e59db275d75ae478e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 30/43] fix: sample_negative_binomial terminates when the draw
 exceeds int

---
 include/distributions/random.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index abbb99c..843bb4f 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -27,6 +27,7 @@
 
 #pragma once
 
+#include <limits>
 #include <utility>
 #include <vector>
 #include <random>
@@ -80,7 +81,15 @@ inline int sample_poisson(rng_t & rng, float mean) {
 }
 
 inline int sample_negative_binomial(rng_t & rng, float p, int r) {
-    std::negative_binomial_distribution<int> sampler(r, p);
+    // std::negative_binomial_distribution<int> loops forever
+    // once the mean of its poisson part exceeds the largest int.
+    std::gamma_distribution<double> mean_sampler(r, (1.0 - p) / p);
+    const double mean = mean_sampler(rng);
+    const int max_value = std::numeric_limits<int>::max();
+    if (DIST_UNLIKELY(not(mean < 0.999 * max_value))) {
+        return max_value;
+    }
+    std::poisson_distribution<int> sampler(mean);
     return sampler(rng);
 }
 
-- 
2.43.0


From 0e50a5d8f9bdb3dfa03ec3b3cabec3a650323fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 31/43] fix: let dd mixtures add groups before their first init

MixtureValueScorer::add_group indexed one vector of scores per value of the
shared dim, but only resize(), called from init(), created those vectors. A
mixture that is given its groups before init(), as examples/mixture does,
wrote past an empty vector.
---
 include/distributions/models/dd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/distributions/models/dd.hpp b/include/distributions/models/dd.hpp
index ec05c23..85d2ebb 100644
--- a/include/distributions/models/dd.hpp
+++ b/include/distributions/models/dd.hpp
@@ -355,6 +355,7 @@ struct MixtureValueScorer : MixtureSlaveValueScorerMixin<Model> {
 
     void add_group(const Shared & shared, rng_t &) {
         scores_shift_.packed_add(0);
+        scores_.resize(shared.dim);
         for (Value value = 0; value < shared.dim; ++value) {
             scores_[value].packed_add(0);
         }
-- 
2.43.0


From eb20ca8fa40443f3705c8790167202b083f2b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 32/43] fix: compare vectors of pairs element by element

are_close for vectors was declared before the overload for pairs, which
its call therefore never found; pairs fell back to operator==, so that
dpd Shared messages were compared exactly.
---
 include/distributions/assert_close.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/distributions/assert_close.hpp b/include/distributions/assert_close.hpp
index 83cb994..277b90a 100644
--- a/include/distributions/assert_close.hpp
+++ b/include/distributions/assert_close.hpp
@@ -54,6 +54,11 @@ inline bool are_close(const double & x, const double & y) {
     return fabs(x - y) <= (1 + fabs(x) + fabs(y)) * assert_close_tol;
 }
 
+template<class T1, class T2>
+inline bool are_close(
+        const std::pair<T1, T2> & x,
+        const std::pair<T1, T2> & y);
+
 template<class T, class Alloc>
 inline bool are_close(
         const std::vector<T, Alloc> & x,
-- 
2.43.0


From a8b886854894df48d2e9083365baae7ecfb05d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 33/43] fix: keep the second moments of repeated niw values
 symmetric

Eigen evaluates count * (x * x') as (count * x) * x', whose rounding
depends on the order of the factors. Once the values were removed again,
what was left was too asymmetric for protobuf_load's own check, so that
a group could not be loaded from its own dump.
---
 include/distributions/models/niw.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/distributions/models/niw.hpp b/include/distributions/models/niw.hpp
index 425ff76..cb0eb64 100644
--- a/include/distributions/models/niw.hpp
+++ b/include/distributions/models/niw.hpp
@@ -262,7 +262,8 @@ struct Group : GroupMixin<Model> {
         DIST_ASSERT3(shared.dim() == (size_t)value.size(), "dim mismatch");
         this->count += count;
         sum_x += count * value;
-        sum_xxT += count * (value * value.transpose());
+        const Matrix xxT = value * value.transpose();  // exactly symmetric
+        sum_xxT += count * xxT;
     }
 
     void remove_value(
-- 
2.43.0


From 7704dbb505b64b9770e14f285d3b869491c99e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 34/43] fix: negative dd values are out of bounds, too

The check of a value against the dimension let negative values through,
which then indexed in front of the counts or alphas.
---
 include/distributions/models/dd.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/distributions/models/dd.hpp b/include/distributions/models/dd.hpp
index 85d2ebb..c5382d9 100644
--- a/include/distributions/models/dd.hpp
+++ b/include/distributions/models/dd.hpp
@@ -124,7 +124,7 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Value & value,
             rng_t &) {
-        DIST_ASSERT1(value < dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < dim, "value out of bounds: " << value);
         count_sum += 1;
         counts[value] += 1;
     }
@@ -134,7 +134,7 @@ struct Group : GroupMixin<Model> {
             const Value & value,
             const int & count,
             rng_t &) {
-        DIST_ASSERT1(value < dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < dim, "value out of bounds: " << value);
         count_sum += count;
         counts[value] += count;
     }
@@ -143,7 +143,7 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Value & value,
             rng_t &) {
-        DIST_ASSERT1(value < dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < dim, "value out of bounds: " << value);
         count_sum -= 1;
         counts[value] -= 1;
     }
@@ -240,7 +240,8 @@ struct Scorer {
             const Shared & shared,
             const Value & value,
             rng_t &) const {
-        DIST_ASSERT1(value < shared.dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < shared.dim,
+            "value out of bounds: " << value);
         return fast_log(alphas[value] / alpha_sum);
     }
 };
@@ -428,7 +429,8 @@ struct MixtureValueScorer : MixtureSlaveValueScorerMixin<Model> {
             size_t groupid,
             const Value & value,
             rng_t &) const {
-        DIST_ASSERT1(value < shared.dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < shared.dim,
+            "value out of bounds: " << value);
         return scores_[value][groupid] - scores_shift_[groupid];
     }
 
@@ -438,7 +440,8 @@ struct MixtureValueScorer : MixtureSlaveValueScorerMixin<Model> {
             const Value & value,
             AlignedFloats scores_accum,
             rng_t &) const {
-        DIST_ASSERT1(value < shared.dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < shared.dim,
+            "value out of bounds: " << value);
         vector_add_subtract(
             scores_accum.size(),
             scores_accum.data(),
@@ -462,7 +465,8 @@ struct MixtureValueScorer : MixtureSlaveValueScorerMixin<Model> {
             size_t groupid,
             const Group & group,
             const Value & value) {
-        DIST_ASSERT1(value < shared.dim, "value out of bounds: " << value);
+        DIST_ASSERT1(0 <= value and value < shared.dim,
+            "value out of bounds: " << value);
         scores_[value][groupid] =
             fast_log(shared.alphas[value] + group.counts[value]);
         scores_shift_[groupid] = fast_log(alpha_sum_ + group.count_sum);
-- 
2.43.0


From 3f645f473ea94891fc8480c07305ccfdedc37401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 35/43] fix: a negative index of an lp mixture is out of bounds

mixture[-1] passed the check and copied memory in front of the groups.
---
 distributions/lp/models/_bb.pyx   | 2 +-
 distributions/lp/models/_bnb.pyx  | 2 +-
 distributions/lp/models/_dd.pyx   | 2 +-
 distributions/lp/models/_dpd.pyx  | 2 +-
 distributions/lp/models/_gp.pyx   | 2 +-
 distributions/lp/models/_nich.pyx | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/distributions/lp/models/_bb.pyx b/distributions/lp/models/_bb.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_bb.pyx
+++ b/distributions/lp/models/_bb.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_bnb.pyx b/distributions/lp/models/_bnb.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_bnb.pyx
+++ b/distributions/lp/models/_bnb.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_dd.pyx b/distributions/lp/models/_dd.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_dd.pyx
+++ b/distributions/lp/models/_dd.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_dpd.pyx b/distributions/lp/models/_dpd.pyx
index c5c7466..0e79b24 100644
--- a/distributions/lp/models/_dpd.pyx
+++ b/distributions/lp/models/_dpd.pyx
@@ -102,7 +102,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_gp.pyx b/distributions/lp/models/_gp.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_gp.pyx
+++ b/distributions/lp/models/_gp.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_nich.pyx b/distributions/lp/models/_nich.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_nich.pyx
+++ b/distributions/lp/models/_nich.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
-- 
2.43.0


From 1abdc75766b2ba54089c86617331a5c83d562321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 36/43] fix: a dd state that is refused leaves the dimension
 alone

load() set the dimension before checking it, so that a dump after the
refusal read beyond the 256 entries.
---
 distributions/hp/models/dd.pyx | 10 ++++++----
 distributions/lp/models/dd.pyx |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/distributions/hp/models/dd.pyx b/distributions/hp/models/dd.pyx
index 9676dd6..8090cee 100644
--- a/distributions/hp/models/dd.pyx
+++ b/distributions/hp/models/dd.pyx
@@ -64,8 +64,9 @@ cdef class _Shared:
 
     def load(self, raw):
         alphas = raw['alphas']
-        self.dim = len(alphas)
-        assert self.dim <= MAX_DIM
+        cdef int dim = len(alphas)
+        assert dim <= MAX_DIM
+        self.dim = dim
         cdef int i
         for i in xrange(self.dim):
             self.alphas[i] = alphas[i]
@@ -141,8 +142,9 @@ cdef class _Group:
 
     def load(self, raw):
         counts = raw['counts']
-        self.dim = len(counts)
-        assert self.dim <= MAX_DIM
+        cdef int dim = len(counts)
+        assert dim <= MAX_DIM
+        self.dim = dim
         cdef int i
         for i in xrange(self.dim):
             self.counts[i] = counts[i]
diff --git a/distributions/lp/models/dd.pyx b/distributions/lp/models/dd.pyx
index eee112d..19c0982 100644
--- a/distributions/lp/models/dd.pyx
+++ b/distributions/lp/models/dd.pyx
@@ -93,9 +93,10 @@ cdef class _Group(_dd.Group):
 
     def load(self, dict raw):
         counts = raw['counts']
-        self.dim = len(counts)
-        assert self.dim <= 256, "too many values"
-        self.ptr.dim = self.dim
+        cdef int dim = len(counts)
+        assert dim <= 256, "too many values"
+        self.dim = dim
+        self.ptr.dim = dim
         self.ptr.count_sum = 0
         cdef int i
         for i in xrange(self.dim):
-- 
2.43.0


From bf4e182996c080dda1de37b5e7f666c209a59e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 37/43] fix: raise errors of samplers and sparse counters in
 Python

The declarations lacked 'except +', so an error, such as a pair drawn from
an urn of one or a message that repeats a value, ended the process.
---
 distributions/lp/random.pyx      | 12 ++++++------
 distributions/sparse_counter.pxd | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/distributions/lp/random.pyx b/distributions/lp/random.pyx
index c4147cc..5dbdad4 100644
--- a/distributions/lp/random.pyx
+++ b/distributions/lp/random.pyx
@@ -41,27 +41,27 @@ ctypedef PyObject* O
 
 cdef extern from "distributions/random.hpp" namespace "distributions":
     cdef float log_sum_exp_cc "distributions::log_sum_exp" (
-            vector[float] & scores) nogil
+            vector[float] & scores) nogil except +
     cdef pair[size_t, float] sample_prob_from_scores_overwrite (
             rng_t & rng,
-            vector[float] & scores) nogil
+            vector[float] & scores) nogil except +
     cdef float score_from_scores_overwrite (
             rng_t & rng,
             size_t sample,
-            vector[float] & scores) nogil
+            vector[float] & scores) nogil except +
     cdef pair[O, O] sample_pair_from_urn_cc \
             "distributions::sample_pair_from_urn<PyObject *>" (
             rng_t & rng,
-            vector[O] & urn) nogil
+            vector[O] & urn) nogil except +
     cdef size_t sample_discrete_cc "distributions::sample_discrete" (
             rng_t & rng,
             size_t dim,
-            const float * probs) nogil
+            const float * probs) nogil except +
     cdef float score_student_t_cc "distributions::score_mv_student_t" (
             const VectorXf &,
             float,
             const VectorXf &,
-            const MatrixXf &) nogil
+            const MatrixXf &) nogil except +
 
 cdef class RNG:
     cdef rng_t * ptr
diff --git a/distributions/sparse_counter.pxd b/distributions/sparse_counter.pxd
index 0a0c289..006ac21 100644
--- a/distributions/sparse_counter.pxd
+++ b/distributions/sparse_counter.pxd
@@ -39,12 +39,12 @@ cdef extern from "distributions/sparse.hpp":
         SparseCounter () nogil except +
         SparseCounter (SparseCounter&) nogil except +
         void clear () nogil
-        void init_count (uint32_t, int) nogil
+        void init_count (uint32_t, int) nogil except +
         int get_count (uint32_t) nogil
         int get_total () nogil
-        int add (uint32_t, int) nogil
-        int remove (uint32_t) nogil
-        void merge (SparseCounter&) nogil
+        int add (uint32_t, int) nogil except +
+        int remove (uint32_t) nogil except +
+        void merge (SparseCounter&) nogil except +
         #SparseCounter& operator= (SparseCounter&)
         iterator begin () nogil
         iterator end () nogil
@@ -61,7 +61,7 @@ cdef extern from "distributions/sparse.hpp":
             bint operator== (iterator) nogil
             bint operator!= (iterator) nogil
         void clear () nogil
-        void add (uint32_t, float) nogil
-        float get (uint32_t) nogil
+        void add (uint32_t, float) nogil except +
+        float get (uint32_t) nogil except +
         iterator begin () nogil
         iterator end () nogil
-- 
2.43.0


From ad73a0206d7dc8cf50dbf245f6162198d07089a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 38/43] fix: load dpd shareds whose weights were kept at the
 minimum

Shared::add_value never lets beta0 drop below MIN_BETA, so the weights of a
few hundred values sum to more than 1 + 1e-4 and the dumped message could not
be loaded again.
---
 include/distributions/models/dpd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/distributions/models/dpd.hpp b/include/distributions/models/dpd.hpp
index d52b9a0..a668191 100644
--- a/include/distributions/models/dpd.hpp
+++ b/include/distributions/models/dpd.hpp
@@ -120,7 +120,9 @@ struct Shared : SharedMixin<Model> {
             beta_sum += beta;
             counts.add(value, message.counts(i));
         }
-        DIST_ASSERT_LE(beta_sum, 1 + 1e-4);
+        // each value ever added may leave up to MIN_BETA of excess mass
+        const double max_excess = 1e-2 + value_count * MIN_BETA();
+        DIST_ASSERT_LE(beta_sum, 1 + max_excess);
         beta0 = std::max(0.0, 1.0 - beta_sum);
     }
 
-- 
2.43.0


From fa5e7481922fb242b54958a643ac32ab37e04cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:25 +0000
Subject: [PATCH 39/43] fix: refuse streams that were cut short inside a record

A protobuf or JSON stream whose writer stopped in the middle of a record was
read back with the torn record returned as if it had been written.
---
 distributions/io/stream.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/distributions/io/stream.py b/distributions/io/stream.py
index 524ec70..aceb0ab 100644
--- a/distributions/io/stream.py
+++ b/distributions/io/stream.py
@@ -131,12 +131,15 @@ class json_stream_load(object):
         return self
 
     def next(self):
-        line = self.fd.readline().rstrip(',\n')
-        if line == ']':
+        line = self.fd.readline()
+        item = line.rstrip(',\n')
+        if item == ']':
             self.close()
             raise StopIteration
+        elif not line.endswith('\n'):
+            raise IOError('Truncated json stream')
         else:
-            return simplejson.loads(line)
+            return simplejson.loads(item)
 
     def close(self):
         self.fd.close()
@@ -153,7 +156,10 @@ def protobuf_stream_read(fd):
     if len(size_str) < 4:
         raise StopIteration
     size = struct.unpack('<I', size_str)[0]
-    return fd.read(size)
+    item = fd.read(size)
+    if len(item) < size:
+        raise IOError('Truncated protobuf stream')
+    return item
 
 
 def protobuf_stream_dump(stream, filename):
-- 
2.43.0


From 6d87dc3499df133178d13a1494907f475586292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 40/43] fix: beta and Dirichlet samples keep their distribution
 when gammas underflow

---
 include/distributions/random.hpp | 10 ++++++++--
 src/random.cc                    | 27 +++++++++++++++++++--------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index 843bb4f..9570304 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -111,8 +111,14 @@ inline float sample_beta(
         float beta) {
     float x = sample_gamma(rng, alpha);
     float y = sample_gamma(rng, beta);
-    if ((x == 0) && (y == 0))
-        return sample_bernoulli(rng, alpha / (alpha + beta)) ? 1.0 : 0.0;
+    if (DIST_UNLIKELY(x + y < std::numeric_limits<float>::min())) {
+        // both underflow; the log of a gamma sample conditioned to be tiny
+        // is a constant minus an exponential sample of rate alpha
+        std::exponential_distribution<double> sampler;
+        const double log_x = -sampler(rng) / alpha;
+        const double log_y = -sampler(rng) / beta;
+        return 1.0 / (1.0 + exp(log_y - log_x));
+    }
     return x / (x + y);
 }
 
diff --git a/src/random.cc b/src/random.cc
index b7abbd5..0b9ff2d 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -36,7 +36,8 @@ namespace distributions {
 rng_t global_rng;
 
 // When all alphas are tiny, all gamma samples can underflow.
-// Then all mass is on one component, chosen with probability ~ alpha.
+// The log of a gamma sample conditioned to be tiny
+// is a constant minus an exponential sample of rate alpha.
 static float fix_gamma_underflow(
         rng_t & rng,
         size_t dim,
@@ -47,15 +48,25 @@ static float fix_gamma_underflow(
     if (DIST_LIKELY(total >= std::numeric_limits<float>::min()) or dim == 0) {
         return total;
     }
-    std::vector<float> likelihoods(dim);
-    float total_alpha = 0.f;
+    std::exponential_distribution<double> sampler;
+    const double lowest = -std::numeric_limits<double>::max();
+    std::vector<double> logs(dim, lowest);
+    double max_log = lowest;
     for (size_t i = 0; i < dim; ++i) {
-        gammas[i] = 0.f;
-        likelihoods[i] = std::max(0.f, alphas[i] + alpha_shift);
-        total_alpha += likelihoods[i];
+        const double alpha = alphas[i] + alpha_shift;
+        if (alpha > 0) {
+            logs[i] = -sampler(rng) / alpha;
+            max_log = std::max(max_log, logs[i]);
+        }
+    }
+    if (max_log == lowest) {
+        max_log = logs[0] = 0.0;
     }
-    gammas[sample_from_likelihoods(rng, likelihoods, total_alpha)] = 1.f;
-    return 1.f;
+    total = 0.f;
+    for (size_t i = 0; i < dim; ++i) {
+        total += gammas[i] = logs[i] > lowest ? exp(logs[i] - max_log) : 0.0;
+    }
+    return total;
 }
 
 void sample_dirichlet(
-- 
2.43.0


From 773fecac7e594324cab84bfd08501ea8ed68e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 41/43] fix: dbg sample_dirichlet survives underflow of all
 gamma samples

---
 distributions/dbg/random.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 04eada6..62a5709 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -28,7 +28,6 @@
 from math import log, pi, sqrt, factorial
 import numpy as np
 import numpy.random
-from numpy.random.mtrand import dirichlet as sample_dirichlet
 from numpy import dot, inner
 from numpy.linalg import cholesky, det, inv
 from numpy.random import multivariate_normal
@@ -48,7 +47,7 @@ LOG = logging.getLogger(__name__)
 
 
 # pacify pyflakes
-assert sample_dirichlet and factorial and sample_poisson and sample_gamma
+assert factorial and sample_poisson and sample_gamma
 
 
 def seed(x):
@@ -95,6 +94,16 @@ def sample_discrete(probs, total=None):
     ]))
 
 
+def sample_dirichlet(alphas):
+    probs = numpy.random.dirichlet(alphas)
+    if np.isnan(probs).any():
+        # all gamma samples underflowed; the log of a gamma sample conditioned
+        # to be tiny is a constant minus an exponential sample of rate alpha
+        logs = -numpy.random.exponential(size=len(alphas)) / np.array(alphas)
+        probs = scores_to_probs(logs)
+    return probs
+
+
 def sample_normal(mu, sigmasq):
     return norm.rvs(mu, sqrt(sigmasq))
 
-- 
2.43.0


From a9a3e698363ee8d6c7e093e088c87cada621ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 42/43] fix: hp Dirichlet sampler survives underflow of all
 gamma samples

---
 distributions/rng_cc.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/distributions/rng_cc.hpp b/distributions/rng_cc.hpp
index 73bc413..728fc0d 100644
--- a/distributions/rng_cc.hpp
+++ b/distributions/rng_cc.hpp
@@ -27,8 +27,11 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <random>
+#include <vector>
 #include <distributions/random_fwd.hpp>
 
 //----------------------------------------------------------------------------
@@ -103,14 +106,30 @@ inline void std_random_dirichlet(
         const real_t * alphas,
         real_t * thetas)
 {
+    std::vector<double> gammas(D);  // since alphas may alias thetas
     double total = 0.0;
     for (size_t d = 0; d < D; ++d) {
-        total += thetas[d] = std_random_gamma(rng, alphas[d], 1.0);
+        total += gammas[d] = std_random_gamma(rng, alphas[d], 1.0);
+    }
+
+    if (total < std::numeric_limits<double>::min()) {
+        // all samples underflow; the log of a gamma sample conditioned to be
+        // tiny is a constant minus an exponential sample of rate alpha
+        std::exponential_distribution<double> sampler;
+        double max_log = -std::numeric_limits<double>::max();
+        for (size_t d = 0; d < D; ++d) {
+            gammas[d] = -sampler(rng) / alphas[d];
+            max_log = std::max(max_log, gammas[d]);
+        }
+        total = 0.0;
+        for (size_t d = 0; d < D; ++d) {
+            total += gammas[d] = exp(gammas[d] - max_log);
+        }
     }
 
     double scale = 1.0 / total;
     for (size_t d = 0; d < D; ++d) {
-        thetas[d] *= scale;
+        thetas[d] = gammas[d] * scale;
     }
 }
 
-- 
2.43.0


From eed7ab1a1ba5fc538be7f9e064a957fd4d6b2240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 43/43] fix: nich count_times_variance no longer turns negative
 by rounding

---
 distributions/dbg/models/nich.py      | 11 ++++++++---
 distributions/hp/models/nich.pyx      | 11 ++++++++---
 include/distributions/models/nich.hpp | 12 +++++++++---
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index cc85b2a..218cd0f 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -140,10 +140,13 @@ class Group(GroupIoMixin):
     def add_repeated_value(self, shared, value, count):
         if count == 0:
             return
-        self.count += count
+        total = self.count + count
         delta = value - self.mean
-        self.mean += delta * count / self.count
-        self.count_times_variance += count * delta * (value - self.mean)
+        value_part = count / float(total)
+        cross_part = self.count * value_part
+        self.count = total
+        self.mean += value_part * delta
+        self.count_times_variance += cross_part * delta * delta
 
     def remove_value(self, shared, value):
         total = self.mean * self.count
@@ -157,6 +160,8 @@ class Group(GroupIoMixin):
             self.count_times_variance = 0.
         else:
             self.count_times_variance -= delta * (value - self.mean)
+            if self.count_times_variance < 0.:  # due to rounding
+                self.count_times_variance = 0.
 
     def merge(self, shared, source):
         count = self.count + source.count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 97fa947..4c96cbb 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -135,10 +135,13 @@ cdef class _Group:
     def add_repeated_value(self, _Shared shared, double value, int count):
         if count == 0:
             return
-        self.count += count
+        cdef size_t total = self.count + count
         cdef double delta = value - self.mean
-        self.mean += delta * count / self.count
-        self.count_times_variance += count * delta * (value - self.mean)
+        cdef double value_part = <double> count / total
+        cdef double cross_part = self.count * value_part
+        self.count = total
+        self.mean += value_part * delta
+        self.count_times_variance += cross_part * delta * delta
 
     def remove_value(self, _Shared shared, double value):
         cdef double total = self.mean * self.count
@@ -152,6 +155,8 @@ cdef class _Group:
             self.count_times_variance = 0.
         else:
             self.count_times_variance -= delta * (value - self.mean)
+            if self.count_times_variance < 0.:  # due to rounding
+                self.count_times_variance = 0.
 
     def merge(self, _Shared shared, _Group source):
         cdef size_t count = self.count + source.count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 608c344..11dc2e2 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -140,10 +140,13 @@ struct Group : GroupMixin<Model> {
         if (count == 0) {
             return;
         }
-        this->count += count;
+        int total_count = this->count + count;
         float delta = value - mean;
-        mean += delta * count / this->count;
-        count_times_variance += count * delta * (value - mean);
+        float value_part = static_cast<float>(count) / total_count;
+        float cross_part = this->count * value_part;
+        this->count = total_count;
+        mean += value_part * delta;
+        count_times_variance += cross_part * sqr(delta);
     }
 
     void remove_value(
@@ -164,6 +167,9 @@ struct Group : GroupMixin<Model> {
             count_times_variance = 0.f;
         } else {
             count_times_variance -= delta * (value - mean);
+            if (count_times_variance < 0.f) {  // due to rounding
+                count_times_variance = 0.f;
+            }
         }
     }
 
-- 
2.43.0

