From 0a11be245c1476e11466f50b31309d5dff024942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 01/84] fix: keep rated points and handle missing labels when
 dropping unreferenced prior points

---
 src/lop/models/PreferenceModel.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 1d55f98..d9a3637 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -116,10 +116,15 @@ class PreferenceModel(Model):
         # iterate through each type of training data
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     counts[pair[1]] += 1
                     counts[pair[2]] += 1
+            else:
+                for idx in y[1]:
+                    counts[idx] += 1
 
         # check which pts don't have any counts
         #idx_to_rm = [x for x in range(len(counts)) if counts[x] == 0]
@@ -138,16 +143,24 @@ class PreferenceModel(Model):
         # reduce indicies of y_train to match removed indicies
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     pair[1] -= counts[pair[1]]
                     pair[2] -= counts[pair[2]]
+            else:
+                new_idxs = np.array([idx - counts[idx] for idx in y[1]], dtype=int)
+                self.y_train[self.probit_idxs[type]] = (y[0], new_idxs)
+
 
 
-        if remove_prior:
+        if remove_prior and self.prior_idx is not None:
             # update the index if they have been removed
-            prior_idx = (self.prior_idx[0], self.prior_idx[1] - len(idx_to_rm))
-            self.prior_idx = prior_idx
+            start, end = self.prior_idx
+            rm_before = len([i for i in idx_to_rm if i < start])
+            rm_within = len([i for i in idx_to_rm if start <= i < end])
+            self.prior_idx = (start - rm_before, end - rm_before - rm_within)
 
 
 
-- 
2.43.0


From 1ec9f12b357ca9f722aca8e788b0489b7d3d4db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 02/84] fix: validate feedback before storing it so a refused
 add leaves the model unchanged

---
 src/lop/models/PreferenceModel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index d9a3637..8864dd2 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -201,12 +201,13 @@ class PreferenceModel(Model):
         if not isinstance(training_sigma, Sequence):
             training_sigma = np.ones(len(y)) * training_sigma
 
+        # only stored once the labels have been accepted
         if self.X_train is None:
-            self.X_train = X
+            new_X_train = np.array(X)
             len_X = 0
         else:
             len_X = len(self.X_train)
-            self.X_train = np.append(self.X_train, X, axis=0)
+            new_X_train = np.append(self.X_train, X, axis=0)
 
         if type == 'relative_discrete':
             if len_X > 0:
@@ -264,6 +265,8 @@ class PreferenceModel(Model):
 
             self.y_train[self.probit_idxs[type]] = (v, idxs)
 
+        self.X_train = new_X_train
+
         if self.pareto_pairs and len(self.X_train) > 1:
             pairs = []
             d_better = get_dk(1,0)
-- 
2.43.0


From 4775a739beaef3a574f720b7f29667eded4109ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 03/84] fix: cubic term in the third derivative of the pairwise
 likelihood

---
 src/lop/probits/PreferenceProbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/probits/PreferenceProbit.py b/src/lop/probits/PreferenceProbit.py
index f7b69d5..5ea3739 100644
--- a/src/lop/probits/PreferenceProbit.py
+++ b/src/lop/probits/PreferenceProbit.py
@@ -218,7 +218,7 @@ class PreferenceProbit(ProbitBase):
         pdf_cdf_ratio, pdf_cdf_ratio2 = calc_pdf_cdf_ratio(z)
 
         paren_pairs = np.where(np.logical_and(z < 0, np.isinf(pdf_cdf_ratio)), 0, \
-                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * std_norm_pdf(z))
+                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * pdf_cdf_ratio)
         paren_pairs *= y[:,0]*y[:,0]*y[:,0]
         paren_pairs *= -1 / (2 * np.sqrt(2) * self.sigma * self.sigma * self.sigma)
 
-- 
2.43.0


From d73604aee48465407b20e7570d16d1ffb8bb97cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 04/84] fix: second derivative of the ordinal likelihood

---
 src/lop/probits/OrdinalProbit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index c4c05b0..ee1d414 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -197,7 +197,12 @@ class OrdinalProbit(ProbitBase):
                     d2py_df2[i] = -(self._ivar*(1.0 - (z1**2 *ep - z2**2)/(ep - 1.0)) + dpy_df[i]**2)
             else:
                 dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
-                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i])
+                # z*pdf, which is 0 at the infinite breakpoints
+                pdf_hi = self.norm_pdf(y[i], f[i])
+                pdf_lo = self.norm_pdf(y[i]-1, f[i])
+                z_pdf_hi = self.z_k(y[i], f[i])*pdf_hi if pdf_hi > 0 else 0.0
+                z_pdf_lo = self.z_k(y[i]-1, f[i])*pdf_lo if pdf_lo > 0 else 0.0
+                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(z_pdf_hi - z_pdf_lo) / l[i])
 
         W = np.diagflat(-d2py_df2)
 
-- 
2.43.0


From 76abd2e517ce9dc8e5bc5177439fae378219a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 05/84] fix: add up several ordinal or absolute labels of the
 same item

---
 src/lop/probits/AbsBoundProbit.py | 17 +++++++----------
 src/lop/probits/OrdinalProbit.py  |  8 +++-----
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index a6c2291..6e49002 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -284,10 +284,10 @@ class AbsBoundProbit(ProbitBase):
 
         # setup the indexing
         full_W = np.zeros((F.shape[0], F.shape[0]))
-        full_W[y[1],y[1]] = Wdiag
+        np.add.at(full_W, (y[1], y[1]), Wdiag)
 
         full_dpy_df = np.zeros(F.shape[0])
-        full_dpy_df[y[1]] = dpy_df
+        np.add.at(full_dpy_df, y[1], dpy_df)
 
         return -full_W, full_dpy_df, np.sum(py)
 
@@ -307,10 +307,7 @@ class AbsBoundProbit(ProbitBase):
         aa, bb = self.get_alpha_beta(f)
 
         py = beta.logpdf(y_selected, aa, bb)
-        full_py = np.zeros(F.shape[0])
-        full_py[y[1]] = py
-
-        return np.sum(full_py)
+        return np.sum(py)
 
 
 
@@ -354,7 +351,7 @@ class AbsBoundProbit(ProbitBase):
         Wdiag = term1_a*term1_b + term2_a*term2_b + term3_a*term3_b
 
         dW = np.zeros((F.shape[0], F.shape[0], F.shape[0]))
-        dW[y[1],y[1],y[1]] = Wdiag
+        np.add.at(dW, (y[1], y[1], y[1]), Wdiag)
 
         return dW
 
@@ -429,11 +426,11 @@ class AbsBoundProbit(ProbitBase):
 
         if self.optimize_v_only:
             dW_dHyper = np.zeros((1, len(F), len(F)))
-            dW_dHyper[0, y[1], y[1]] = dW_dv
+            np.add.at(dW_dHyper[0], (y[1], y[1]), dW_dv)
         else:
             dW_dHyper = np.zeros((2, len(F), len(F)))
-            dW_dHyper[1, y[1], y[1]] = dW_dv
-            dW_dHyper[0, y[1], y[1]] = dW_dSigma
+            np.add.at(dW_dHyper[1], (y[1], y[1]), dW_dv)
+            np.add.at(dW_dHyper[0], (y[1], y[1]), dW_dSigma)
 
         return -dW_dHyper
 
diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index ee1d414..ba576f8 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -204,15 +204,13 @@ class OrdinalProbit(ProbitBase):
                 z_pdf_lo = self.z_k(y[i]-1, f[i])*pdf_lo if pdf_lo > 0 else 0.0
                 d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(z_pdf_hi - z_pdf_lo) / l[i])
 
-        W = np.diagflat(-d2py_df2)
-
         # setup the indexing to reshape into full gradient of F
+        # (an item may have several labels, which add up)
         full_W = np.zeros((F.shape[0], F.shape[0]))
-        idx_grid = np.meshgrid(y_orig[1],y_orig[1])
-        full_W[tuple(idx_grid)] = W
+        np.add.at(full_W, (y_orig[1], y_orig[1]), -d2py_df2)
 
         full_dpy_df = np.zeros(F.shape[0])
-        full_dpy_df[y_orig[1]] = dpy_df
+        np.add.at(full_dpy_df, y_orig[1], dpy_df)
 
         return full_W, full_dpy_df, np.sum(py)
 
-- 
2.43.0


From 73fb49dcda401abc2c70ab1b43a8f9644b9ebc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 06/84] fix: ordinal log-likelihood underflowed to -inf with
 many or unlikely labels

---
 src/lop/probits/OrdinalProbit.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index ba576f8..9f13d64 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -170,7 +170,7 @@ class OrdinalProbit(ProbitBase):
         y_orig = y
         y = y[0]
         l = self.likelihood_each(y_orig, F)
-        py = np.log(l)
+        py = np.log(np.maximum(l, np.finfo(float).tiny))
 
         # First derivative - Chu and Gharamani
         # Having issues with derivative (likelihood denominator drops to 0)
@@ -232,3 +232,14 @@ class OrdinalProbit(ProbitBase):
     def likelihood(self, y, F):
         return np.prod(self.likelihood_each(y, F))
 
+    ## log_likelihood
+    # Sum of the logs of each likelihood, as the log of the product would underflow
+    # with many labels
+    # @param y - the given set of labels for the probit
+    # @param F - the input data samples
+    #
+    # @return log P(y|F)
+    def log_likelihood(self, y, F):
+        l = np.maximum(self.likelihood_each(y, F), np.finfo(float).tiny)
+        return np.sum(np.log(l))
+
-- 
2.43.0


From 39cdd9a4450d97dbebfca7f987e761c8122c674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 07/84] fix: derivatives of the absolute likelihood's W with
 respect to F and v

---
 src/lop/probits/AbsBoundProbit.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 6e49002..744eff6 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -348,7 +348,8 @@ class AbsBoundProbit(ProbitBase):
         term3_b = gauss_pdf * gauss_pdf * gauss_pdf * (bb2 - aa2)
 
 
-        Wdiag = term1_a*term1_b + term2_a*term2_b + term3_a*term3_b
+        # negative, as W is the negative second derivative
+        Wdiag = -(term1_a*term1_b + term2_a*term2_b + term3_a*term3_b)
 
         dW = np.zeros((F.shape[0], F.shape[0], F.shape[0]))
         np.add.at(dW, (y[1], y[1], y[1]), Wdiag)
@@ -399,10 +400,10 @@ class AbsBoundProbit(ProbitBase):
         term2_a = -(v*f / (2*sqrt2 * sigma3)) * gauss_pdf
         term2_b = -mu*aa1 + bb1 - mu*bb1
 
-        term3 = (v / sigma2) * gauss_pdf2 * (aa1 + bb1)
+        term3 = -(v / sigma2) * gauss_pdf2 * (aa1 + bb1)
         
-        term4_a = ((v*v) / (2*sigma2)) * gauss_pdf2
-        term4_b = mu*aa1 + (1-mu)*bb2
+        term4_a = -((v*v) / (2*sigma2)) * gauss_pdf2
+        term4_b = mu*aa2 + (1-mu)*bb2
 
         dW_dv = term1 + term2_a*term2_b + term3 + term4_a*term4_b
 
-- 
2.43.0


From ab25810d5a4d81ed86b652bb150cc5c52c3d624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 08/84] fix: prior gradient of the absolute likelihood's v
 matches its flat prior

---
 src/lop/probits/AbsBoundProbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 744eff6..e2956e8 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -202,8 +202,9 @@ class AbsBoundProbit(ProbitBase):
                 return np.array([0.0])
                 return np.array([d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
             else:
+                # the prior on v is flat (see param_likli)
                 return np.array([d_log_pdf_gamma(self.sigma, self.sigma_k, self.sigma_theta),
-                        d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
+                        0.0])
         else:
             return super().grad_param_likli()
 
-- 
2.43.0


From 728f379479ca7ef41ffcfb944e711569f4b14762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 09/84] fix: preference GP with rank deficient covariance
 (jitter, and weights instead of a scalar in the fallback)

---
 src/lop/models/PreferenceGP.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index eecdc90..0dea731 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -129,7 +129,7 @@ class PreferenceGP(PreferenceModel):
         except:
             try:
                 K_inv = np.linalg.pinv(K)
-                alpha = F.transpose() @ K_inv @ F
+                alpha = K_inv @ F
             except:
                 pdb.set_trace()
 
@@ -227,7 +227,13 @@ class PreferenceGP(PreferenceModel):
         f_err = self.delta_f + 1
 
         try:
-            L = np.linalg.cholesky(self.K)
+            try:
+                L = np.linalg.cholesky(self.K)
+            except np.linalg.LinAlgError:
+                # rank deficient covariance (linear kernel, repeated points, ...)
+                jitter = 1e-6 * np.trace(self.K) / len(self.K)
+                self.K = self.K + jitter * np.identity(len(self.K))
+                L = np.linalg.cholesky(self.K)
             L_inv = np.linalg.inv(L)
             K_inv = L_inv.T @ L_inv
         except:
-- 
2.43.0


From c2830fa98afa3787287f888862833cf517af1f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 10/84] fix: RBF noise only when both point sets are equal, not
 just their first points

---
 src/lop/kernels/RBF_kern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 5136842..5515dff 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -116,7 +116,8 @@ class RBF_kern(KernelFunc):
         top = np.sum(diff*diff, axis=2)
 
         cov = self.sigma * self.sigma * np.exp(-top / (2 * self.l*self.l))
-        if cov.shape[0] == cov.shape[1] and (X[0] == Y[0]).all():
+        # noise only on the covariance of a set of points with itself
+        if cov.shape[0] == cov.shape[1] and np.array_equal(X, Y):
             cov += np.eye(cov.shape[0])*self.sigma_noise
         return cov
 
-- 
2.43.0


From 879d3946139a667fe789fb2d07cc8fa7927f7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 11/84] fix: factor of the RBF length scale gradient

---
 src/lop/kernels/RBF_kern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 5515dff..c226408 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -146,7 +146,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
         # if N == N:
         #     dSigma_noise = np.eye(N)
         # else:
@@ -162,7 +162,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
 
         return np.array([dSigma, dl])
 
-- 
2.43.0


From c68e201e6b5ceda0d689a2e5b42e55e59bb55979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 12/84] fix: gradients of the periodic kernel

---
 src/lop/kernels/PeriodicKern.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/lop/kernels/PeriodicKern.py b/src/lop/kernels/PeriodicKern.py
index 12b63c8..25e31be 100644
--- a/src/lop/kernels/PeriodicKern.py
+++ b/src/lop/kernels/PeriodicKern.py
@@ -147,19 +147,17 @@ class PeriodicKern(KernelFunc):
 
         X_expanded = np.repeat(X[:,np.newaxis,:], M, axis=1)
         Y_expanded = np.repeat(Y[np.newaxis,:,:], N, axis=0)
-        diff = X_expanded - Y_expanded
-        top = np.sum(diff*diff, axis=2)
-
-        exp_x = np.exp(-top / (2 * self.l*self.l))
-
         diff = X_expanded - Y_expanded
         uv_norm = np.sum(np.abs(diff), axis=2)
+
+        sin_tmp = np.sin(np.pi*uv_norm / self.p)
+        exp_x = np.exp(-2 * sin_tmp * sin_tmp / (self.l*self.l))
         
         cos_tmp = np.cos(np.pi*uv_norm / self.p)
         
         dSigma = 2 * self.sigma * exp_x
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp*sin_tmp / (self.l*self.l*self.l)
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * sin_tmp * \
             cos_tmp / (self.l*self.l * self.p*self.p)
 
         return dSigma, dl, dp
@@ -173,9 +171,9 @@ class PeriodicKern(KernelFunc):
 
         dSigma = 2 * self.sigma * exp_x
 
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp*sin_tmp / (self.l*self.l*self.l)
 
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * sin_tmp * \
             np.cos(np.pi * uv_norm / self.p) / (self.l*self.l * self.p*self.p)
 
         return np.array([dSigma, dl, dp])
-- 
2.43.0


From 5391abae5c520c2d940b47eafd4635c17b186b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 13/84] fix: pairwise value and gradients of the zeroed RBF
 kernel

---
 src/lop/kernels/RBF_kern_zeroed.py | 35 +++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/lop/kernels/RBF_kern_zeroed.py b/src/lop/kernels/RBF_kern_zeroed.py
index 63ae3b7..fd77437 100644
--- a/src/lop/kernels/RBF_kern_zeroed.py
+++ b/src/lop/kernels/RBF_kern_zeroed.py
@@ -78,12 +78,22 @@ class RBF_kern_zeroed(RBF_kern):
 
         return cov - cov_zero
 
+    # covariance of each point with the zero point (without noise)
+    # @param X - samples (n,k) or (n,) numpy array
+    #
+    # @return (n,) numpy array
+    def cov_with_zero(self, X):
+        if len(X.shape) == 1:
+            X = X[:,np.newaxis]
+        diff = X - self.zero_pt
+        return self.sigma * self.sigma * np.exp(-np.sum(diff*diff, axis=1) / (2 * self.l*self.l))
+
     def zero_cov(self, X, Y):
         N = X.shape[0]
         M = Y.shape[0]
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        cov_x = self.cov_with_zero(X)[:,np.newaxis]
+        cov_y = self.cov_with_zero(Y)[np.newaxis,:]
 
         X_expanded = np.repeat(cov_x, M, axis=1)
         Y_expanded = np.repeat(cov_y, N, axis=0)
@@ -108,8 +118,8 @@ class RBF_kern_zeroed(RBF_kern):
         N = X.shape[0]
         M = Y.shape[0]
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        cov_x = self.cov_with_zero(X)[:,np.newaxis]
+        cov_y = self.cov_with_zero(Y)[np.newaxis,:]
 
         X_expanded = np.repeat(cov_x, M, axis=1)
         Y_expanded = np.repeat(cov_y, N, axis=0)
@@ -118,8 +128,11 @@ class RBF_kern_zeroed(RBF_kern):
         y_sig, y_l = super().cov_gradient(self.zero_pt[np.newaxis,:], Y)
 
         # f(x)g'(x) + f'(x)g(x)
-        zero_sigma = x_sig * Y_expanded + X_expanded * y_sig
-        zero_l =     x_l * Y_expanded + X_expanded * y_l
+        # product rule on cov_x * cov_y / sigma^2
+        var = self.sigma * self.sigma
+        zero_sigma = (x_sig * Y_expanded + X_expanded * y_sig) / var \
+                        - 2 * X_expanded * Y_expanded / (var * self.sigma)
+        zero_l =     (x_l * Y_expanded + X_expanded * y_l) / var
 
         return dSigma-zero_sigma, dl-zero_l
 
@@ -133,7 +146,13 @@ class RBF_kern_zeroed(RBF_kern):
         grad_zero_v = super().gradient(v, self.zero_pt)
 
         # f(x)g'(x) + f'(x)g(x)
-        grad_zero = super()(u, self.zero_pt) * grad_zero_v +  grad_zero_u * super()(v, self.zero_pt)
+        k_u = super().__call__(u, self.zero_pt)
+        k_v = super().__call__(v, self.zero_pt)
+
+        # product rule on k_u * k_v / sigma^2
+        var = self.sigma * self.sigma
+        grad_zero = (k_u * grad_zero_v +  grad_zero_u * k_v) / var
+        grad_zero[0] -= 2 * k_u * k_v / (var * self.sigma)
 
         return grad - grad_zero
 
@@ -143,4 +162,4 @@ class RBF_kern_zeroed(RBF_kern):
         cov = super().__call__(u,v)
         cov_0 = super().__call__(u, self.zero_pt)*super().__call__(v, self.zero_pt)
 
-        return cov - cov_0
+        return cov - cov_0 / (self.sigma * self.sigma)
-- 
2.43.0


From 4fe32b8ac0555470f5b46e9027df5766000f8461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 14/84] fix: parameter gradients of combined kernels keep one
 matrix per parameter

---
 src/lop/kernels/KernelFunc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index d33cc05..c185517 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -230,12 +230,15 @@ class DualKern(KernelFunc):
             a_grad = self.a.cov_gradient(X,Y)
             b_grad = self.b.cov_gradient(X,Y)
         elif self.operator == '*':
-            a_grad = self.a.cov_gradient(X,Y) * self.b.cov(X,Y)
-            b_grad = self.b.cov_gradient(X,Y) * self.a.cov(X,Y)
+            a_cov = self.a.cov(X,Y)
+            b_cov = self.b.cov(X,Y)
+            a_grad = [grad * b_cov for grad in self.a.cov_gradient(X,Y)]
+            b_grad = [grad * a_cov for grad in self.b.cov_gradient(X,Y)]
         else:
             raise NotImplementedError('DualKern does not have operator `'+self.operator+'` implemented')
 
-        return a_grad + b_grad
+        # one matrix for each parameter, in the same order as get_param
+        return tuple(a_grad) + tuple(b_grad)
 
 
 
-- 
2.43.0


From 1b0ce1f2f2e01efde2dee508fa5434c43db03e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 15/84] fix: combined kernels draw random parameters for both
 parts

---
 src/lop/kernels/KernelFunc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index c185517..bbeae1a 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -176,6 +176,12 @@ class DualKern(KernelFunc):
     def grad_param_likli(self):
         return np.append(self.a.grad_param_likli(), self.b.grad_param_likli(), axis=0)
 
+    ## Performs random sampling using the same liklihood function used by the param
+    # liklihood function
+    # @return numpy array of independent samples, in the same order as get_param
+    def randomize_hyper(self):
+        return np.append(self.a.randomize_hyper(), self.b.randomize_hyper(), axis=0)
+
 
 
     ## get covariance matrix
-- 
2.43.0


From bb4a426eb52aa11f58df5ba8461d006ca7ac8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 16/84] fix: random hyper-parameter draws line up with
 get_hyper for every mix of feedback

---
 src/lop/models/PreferenceGP.py    |  6 ++++--
 src/lop/probits/AbsBoundProbit.py |  2 ++
 src/lop/probits/OrdinalProbit.py  | 13 ++++++++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 0dea731..bf40507 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -489,8 +489,10 @@ class PreferenceGP(PreferenceModel):
     def randomize_hyper(self):
         probit_samples = np.array([])
         for i in range(len(self.probits)):
-            sample = self.probits[i].randomize_hyper()
-            probit_samples = np.append(probit_samples, sample, axis=0)
+            # same parameters as get_hyper and set_hyper (only probits with data)
+            if self.y_train[i] is not None:
+                sample = self.probits[i].randomize_hyper()
+                probit_samples = np.append(probit_samples, sample, axis=0)
 
         if self.hyperparam_only_probit:
             self.set_hyper(probit_samples)
diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index e2956e8..3fb4d0e 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -167,6 +167,8 @@ class AbsBoundProbit(ProbitBase):
     # liklihood function
     # @return numpy array of independent samples.
     def randomize_hyper(self):
+        if not self.optimize_parameters:
+            return super().randomize_hyper()
         if self.optimize_v_only:
             return np.array([np.random.gamma(self.v_k, self.v_theta)])
         else:
diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 9f13d64..23e84c3 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -72,7 +72,18 @@ class OrdinalProbit(ProbitBase):
         else:
             b = self.b
         return np.array([self.sigma, b])
-    
+
+    ## grad_param_likli
+    # the prior on the ordinal parameters is flat (see param_likli)
+    # @return numpy array of gradient of each parameter
+    def grad_param_likli(self):
+        return np.zeros(len(self.get_hyper()))
+
+    ## randomize_hyper
+    # A flat prior can not be sampled, so the parameters are kept.
+    # @return numpy array of parameters, same order as get_hyper
+    def randomize_hyper(self):
+        return self.get_hyper()
 
     ## set_b
     # Sets the bias hyperparameter
-- 
2.43.0


From 9a0e9504f30c344ebd4aa862caa4944afe391615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 17/84] fix: empty hyper-parameter gradient instead of None
 when no probit parameter is optimized

---
 src/lop/models/PreferenceGP.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index bf40507..7674d82 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -583,18 +583,12 @@ class PreferenceGP(PreferenceModel):
 
                 probit_grads.append(grad_theta-term2)
 
-        grad_hyper = None
+        grad_hyper = np.empty((0,))
         for probit_grad in probit_grads:
-            if grad_hyper is None:
-                grad_hyper = probit_grad
-            else:
-                grad_hyper = np.append(grad_hyper, probit_grad, axis=0)
+            grad_hyper = np.append(grad_hyper, probit_grad, axis=0)
         if self.hyperparam_only_probit:
             return grad_hyper
-        if grad_hyper is None:
-            grad_hyper = dL_cov_f
-        else:
-            grad_hyper = np.append(grad_hyper, dL_cov_f, axis=0)
+        grad_hyper = np.append(grad_hyper, dL_cov_f, axis=0)
 
         return grad_hyper
 
-- 
2.43.0


From 197a57aa0e532dd2155ed22eb2823edb5b55199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 18/84] fix: regression GP without data predicts its mean
 function

---
 src/lop/models/GP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index a189b62..10f02ef 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -95,7 +95,7 @@ class GP(Model):
             sigma = np.diagonal(self.cov)
             # just in case do to numerical instability a negative variance shows up
             sigma = np.maximum(0, sigma)
-            return np.zeros(len(X)), sigma
+            return np.zeros(len(X)) + self.mean_func(X), sigma
 
         #### This function treats Y as the training data
         Y = self.X_train
-- 
2.43.0


From d488536b97b4dec453f97685867767a6f81c0c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 19/84] fix: regression GP keeps its own copy of the first
 training data

---
 src/lop/models/GP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index 10f02ef..41db76a 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -69,9 +69,10 @@ class GP(Model):
         y = y - self.mean_func(X)
 
         if self.X_train is None:
-            self.X_train = X
+            # copies, the caller may change its own arrays afterwards
+            self.X_train = np.array(X)
             self.y_train = y
-            self.training_sigma = training_sigma
+            self.training_sigma = np.array(training_sigma)
         else:
             self.X_train = np.append(self.X_train, X, axis=0)
             self.y_train = np.append(self.y_train, y, axis=0)
-- 
2.43.0


From cca30a22ff8f03421d9e974ed3b8326ecec73294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 20/84] fix: model without data when none of the prior points
 take part in a label

---
 src/lop/models/PreferenceModel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 8864dd2..06a38ba 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -155,6 +155,11 @@ class PreferenceModel(Model):
 
 
 
+        # nothing left, the same as a model without data
+        if len(self.X_train) == 0:
+            self.X_train = None
+            self.prior_idx = None
+
         if remove_prior and self.prior_idx is not None:
             # update the index if they have been removed
             start, end = self.prior_idx
-- 
2.43.0


From 8f630945fe3b4f9bb5c9bf32c1b95680f74837d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 21/84] fix: normalized preference GP divided by zero when all
 latent values are equal

---
 src/lop/models/PreferenceGP.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 7674d82..61bbaac 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -266,10 +266,12 @@ class PreferenceGP(PreferenceModel):
                     min = np.amin(F_new)
                     F_new = (F_new - min)
                     max = np.amax(F_new)
-                    F_new = F_new / max
+                    if max > 0:
+                        F_new = F_new / max
                 else:
                     F_norm = np.linalg.norm(F_new, ord=np.inf)
-                    F_new = F_new / F_norm
+                    if F_norm > 0:
+                        F_new = F_new / F_norm
 
             # check for convergence
             f_err = np.linalg.norm((F_new - F), ord=np.inf)
-- 
2.43.0


From 66ad759ed7c2335aea55a24cfe4c971d7350c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 22/84] fix: jitter also a covariance whose factorization only
 succeeds through rounding

---
 src/lop/models/PreferenceGP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 61bbaac..48e1001 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -229,6 +229,8 @@ class PreferenceGP(PreferenceModel):
         try:
             try:
                 L = np.linalg.cholesky(self.K)
+                if np.min(np.diagonal(L))**2 < 1e-12 * np.max(np.diagonal(self.K)):
+                    raise np.linalg.LinAlgError('numerically rank deficient')
             except np.linalg.LinAlgError:
                 # rank deficient covariance (linear kernel, repeated points, ...)
                 jitter = 1e-6 * np.trace(self.K) / len(self.K)
-- 
2.43.0


From 30568964d8fc7058a6e9e78a4f73c44e9c371be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 23/84] fix: ordinal derivatives were nan for inner levels with
 latent values far away

---
 src/lop/probits/OrdinalProbit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 23e84c3..9db5e50 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -203,6 +203,9 @@ class OrdinalProbit(ProbitBase):
                 else:
                     z1 = self.z_k(y[i], f[i])
                     z2 = self.z_k(y[i]-1, f[i])
+                    # symmetric in both, ordered so that ep can not overflow
+                    if abs(z1) < abs(z2):
+                        z1, z2 = z2, z1
                     ep = np.exp(-0.5*(z1**2 - z2**2))
                     dpy_df[i] = self._isigma*(z1*ep-z2)/(ep - 1.0)
                     d2py_df2[i] = -(self._ivar*(1.0 - (z1**2 *ep - z2**2)/(ep - 1.0)) + dpy_df[i]**2)
-- 
2.43.0


From 46bd394464a3f0ba7a82b4ebf0642968f73e8d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 24/84] fix: damped Newton step goes uphill with singular or
 indefinite curvature, linear model stops at stationary points

---
 src/lop/models/PreferenceLinear.py |  6 ++++++
 src/lop/models/PreferenceModel.py  | 18 ++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceLinear.py b/src/lop/models/PreferenceLinear.py
index 5f81114..c88ec22 100644
--- a/src/lop/models/PreferenceLinear.py
+++ b/src/lop/models/PreferenceLinear.py
@@ -39,6 +39,7 @@ class PreferenceLinear(PreferenceModel):
 
         self.mat_inv = mat_inv
         self.delta_f = 0.002
+        self.delta_grad = 0.0001
         self.maxloops = 100
 
 
@@ -87,6 +88,11 @@ class PreferenceLinear(PreferenceModel):
             gradient = dpy_dw
             hess = -W
 
+            # stationary point (always reached with flat directions, such as separable data)
+            if np.linalg.norm(gradient, ord=2) < self.delta_grad:
+                n_loops += 1
+                break
+
             w_new = self.newton_update(w, # input value to change
                                        gradient=gradient, 
                                        hess=hess,
diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 06a38ba..1744434 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -417,8 +417,15 @@ class PreferenceModel(Model):
         # positive since we are searching for the max.
         try:
             descent = gradient @ invert_function(hess)
-        except:
-            descent = gradient
+            # the hessian may not be negative definite away from the max, or be
+            # singular up to rounding
+            uphill = gradient @ descent < 0 and \
+                        np.linalg.norm(hess @ descent - gradient) <= 1e-6 * np.linalg.norm(gradient)
+        except np.linalg.LinAlgError:
+            uphill = False
+        if not uphill:
+            # F - lambda * descent follows the gradient, scaled by the curvature
+            descent = -gradient / max(np.linalg.norm(hess), 1e-10)
 
         if lambda_type == "binary":
             # search along the descent direction for the min point.
@@ -431,6 +438,13 @@ class PreferenceModel(Model):
             raise ValueError("newton update given bad lambda type of: " + str(lambda_type))
 
         F_new = F - lamb * descent
+        # a step has to improve the objective
+        loss = loss_func(F, *loss_args)
+        for i in range(30):
+            if not loss_func(F_new, *loss_args) < loss:
+                break
+            lamb = 0.5 * lamb
+            F_new = F - lamb * descent
         return F_new
 
 
-- 
2.43.0


From 4200a5002ee64c35d3d3915366e9fa47625c358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:06 +0000
Subject: [PATCH 25/84] fix: select pairs only when two alternatives and
 candidates are left, and use passed over candidates when no other is left

---
 src/lop/active_learning/ActiveLearner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 1d9cd6d..56ea3cf 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -99,14 +99,15 @@ class ActiveLearner:
             all_not_selected = (set(range(len(candidate_pts))) - prev_selection) - set(sel_pts)
             not_selected = []
 
-            while len(sel_pts) < num_alts and len(all_not_selected) > 0:
+            while len(sel_pts) < num_alts and (len(all_not_selected) > 0 or len(not_selected) > 0):
                 # weird case where points have been selected already but out of 'prefered points'
                 # take the first index of the list then.
                 if len(pref_not_sel) == 0 and len(not_selected) > 0:
                     selected_idx = not_selected[0]
                     not_selected.pop(0) 
                 else:
-                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and hasattr(self, "select_pair"):
+                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) \
+                            and len(pref_not_sel) > 1 and hasattr(self, "select_pair"):
                         selected_pair = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         selected_idx = selected_pair[0]
 
@@ -138,7 +139,7 @@ class ActiveLearner:
             while len(sel_pts) < num_alts:
                 # only select from the prefered points if they still exist
                 if len(pref_not_sel) > 0:
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if select_pair_first and len(sel_pts) == 0 and num_alts > 1 and len(pref_not_sel) > 1 and hasattr(self, "select_pair"):
                         selected_idx = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         
                         if selected_idx[0] in pref_not_sel:
@@ -155,7 +156,7 @@ class ActiveLearner:
                     # ensure that there is at least some pts left to select from
                     if len(all_not_selected) == 0:
                         raise Exception("Not enough points for select to create a full set")
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if select_pair_first and len(sel_pts) == 0 and num_alts > 1 and len(all_not_selected) > 1 and hasattr(self, "select_pair"):
                         selected_idx = self.select_pair(candidate_pts, mu, data, all_not_selected, prev_selection | set(sel_pts))
                         all_not_selected.remove(selected_idx[0])
                         all_not_selected.remove(selected_idx[1])
-- 
2.43.0


From b10b1016d388fdea3bf9ea11b2e1aceb8c72bd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:54 +0000
Subject: [PATCH 26/84] fix: pairs are picked only from the allowed candidates,
 and distinct

---
 src/lop/active_learning/AcquisitionSelection.py |  4 ++--
 src/lop/active_learning/ActiveLearner.py        | 13 +++++++++----
 src/lop/active_learning/BayesInfoGain.py        |  6 +++---
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index 8ec26be..350a721 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -100,7 +100,7 @@ class AcquisitionSelection(AcquisitionBase):
             # THIS IS PROBABLY NOT THE RIGHT WAY TO HANDLE THIS
             # But needs at least a pair in order to calculate properly.
             self.sel_metric = 0
-            return np.random.choice(indicies)[0]
+            return np.random.choice(indicies)
             #return np.argmax(mu)
 
         x_rep, Q_rep = self.get_representative_Q(candidate_pts)
@@ -231,6 +231,6 @@ class AcquisitionSelection(AcquisitionBase):
         # represents the alignment metric for each pair being selected as align_Q
         align_Q = E_align_q + E_align_q.T
         
-        pair = self.pick_pair_from_metric(align_Q, prev_selection)
+        pair = self.pick_pair_from_metric(align_Q, prev_selection, indicies)
         self.sel_metric = align_Q[pair[0], pair[1]]
         return pair
diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 56ea3cf..151fcce 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -265,9 +265,16 @@ class ActiveLearner:
     # pick a particular pair from a matrix of info gain
     # @param info_gain - 2d matrix [Q,Q] each represents the info gain of picking
     #                   pair [i,j].
+    # @param indicies - [opt] the indicies allowed to be in the pair, defaults to all.
     #
     # @return (i,j) pair to select
-    def pick_pair_from_metric(self, info_gain, prev_selection):
+    def pick_pair_from_metric(self, info_gain, prev_selection, indicies=None):
+        # only the given indicies are allowed to be selected
+        if indicies is not None:
+            not_allowed = list(set(range(info_gain.shape[0])) - set(indicies))
+            info_gain[not_allowed, :] = -np.inf
+            info_gain[:, not_allowed] = -np.inf
+
         # just a check to ensure the same points do not get selected twice.
         # Shouldn't happen, but in case it does... really makes sure.
         np.fill_diagonal(info_gain, -np.inf)
@@ -284,9 +291,7 @@ class ActiveLearner:
         
 
         # randomly select from the same values
-        if num_same == 0:
-            pdb.set_trace()
-        to_pick = np.random.randint(0, num_same)
+        to_pick = np.random.randint(0, max(num_same, 1))
 
         idx_best = np.unravel_index(sorted[to_pick], info_gain.shape)
 
diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 92fa0f7..79a4b15 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -104,7 +104,7 @@ class BayesInfoGain(ActiveLearner):
                 probit_mat = self.model.probits[0].likelihood_all_pairs(mu)
 
                 # Get the probabilities of which candidate_pts is the best.
-                p_B = self.p_B_pref_linear(candidate_pts, mu, probit_mat)
+                p_B = self.p_B_pref_linear(candidate_pts, mu)
             self.p_B = p_B
             self.probit_mat = probit_mat
             self.first_call_greedy = False
@@ -178,7 +178,7 @@ class BayesInfoGain(ActiveLearner):
         p_B, probit_mat = self.get_p_B_probit(candidate_pts, mu)
 
         if self.model.X_train is None:
-            idxs = np.random.choice(list(indicies), 2)
+            idxs = np.random.choice(list(indicies), 2, replace=False)
             return (idxs[0], idxs[1])
 
         if debug:
@@ -257,7 +257,7 @@ class BayesInfoGain(ActiveLearner):
             print(info_gain)
 
 
-        idx_best = self.pick_pair_from_metric(info_gain, prev_selection)
+        idx_best = self.pick_pair_from_metric(info_gain, prev_selection, indicies)
         
 
         print('idx_best: ' + str(idx_best))
-- 
2.43.0


From 5246a0850aab7c5263c21877fa601aefaf3e2018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:54 +0000
Subject: [PATCH 27/84] fix: mixed comparison learners with return_not_selected

---
 src/lop/active_learning/RateChooseLearner.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index c280ec0..2d74b3f 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -162,7 +162,8 @@ class MixedComparision(RateChooseLearner):
         pair_metric = self.pairwise_l.sel_metric
 
         # calculate absloute selected metric
-        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_idxs, [])
+        abs_sel = abs_idxs[0] if return_not_selected else abs_idxs
+        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_sel, [])
         abs_metric = self.abs_comp.sel_metric
         
 
@@ -359,22 +360,24 @@ class MixedComparisionEqualChecking(RateChooseLearner):
         pair_metric = self.pairwise_l.sel_metric
 
         # calculate absloute selected metric
-        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_idxs, [])
+        abs_sel = abs_idxs[0] if return_not_selected else abs_idxs
+        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_sel, [])
         abs_metric = self.abs_comp.sel_metric
         
         print('Pairwise selected metric: ' + str(pair_metric))
         print('Absloute selected metric: ' + str(abs_metric))
         
 
-        pair_samples = all_Q[:, pair_idxs]
-        if len(pair_idxs) == 2:
+        pair_sel = pair_idxs[0] if return_not_selected else pair_idxs
+        pair_samples = all_Q[:, pair_sel]
+        if len(pair_sel) == 2:
             eta2 = compute_effsize(pair_samples[:, 0], pair_samples[:, 1], paired=True, eftype='eta-square')
         else:
             raise NotImplementedError("Have not implemented effect size computation yet")
 
 
         # check if any selected pairs might be evaluating to the same value
-        if (candidate_pts[pair_idxs] == candidate_pts[pair_idxs[::-1]]).all(axis=0).any():
+        if (candidate_pts[pair_sel] == candidate_pts[pair_sel[::-1]]).all(axis=0).any():
             # there is at least one pair that is the same.
             # check if the estimated values are similar
 
-- 
2.43.0


From 81e0a19a132782d754463b9f3f178624d898929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:54 +0000
Subject: [PATCH 28/84] fix: decision learners do not keep using samples of
 earlier candidates

---
 src/lop/active_learning/MixedStrategy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lop/active_learning/MixedStrategy.py b/src/lop/active_learning/MixedStrategy.py
index 344215d..a4e13bf 100644
--- a/src/lop/active_learning/MixedStrategy.py
+++ b/src/lop/active_learning/MixedStrategy.py
@@ -287,8 +287,9 @@ class MixedDecision(MixedStrategyPeak3):
                     sel_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
                 self.state = 0
 
-
-
+            # the samples are only valid for these candidate points
+            self.pairwise_l.unset_samples()
+            self.abs_comp.unset_samples()
 
 
 
@@ -437,8 +438,9 @@ class MixedDecision2(MixedStrategyPeak3):
                     sel_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
                 self.state = 0
 
-
-
+            # the samples are only valid for these candidate points
+            self.pairwise_l.unset_samples()
+            self.abs_comp.unset_samples()
 
 
 
-- 
2.43.0


From d4823cd7b365bc8c5b99fb18a6e053d0078f680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:54 +0000
Subject: [PATCH 29/84] fix: tie of the weighted metrics in MixedComparision

---
 src/lop/active_learning/RateChooseLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index 2d74b3f..8628167 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -174,7 +174,7 @@ class MixedComparision(RateChooseLearner):
         print('Absloute selected metric: ' + str(abs_metric))
         if pair_metric > abs_metric:
             sel_idxs = pair_idxs
-        elif self.pairwise_l.sel_metric == abs_metric:
+        elif pair_metric == abs_metric:
             # both the same, just randomly pick one of the options.
             if np.random.random() > 0.5:
                 sel_idxs = pair_idxs
-- 
2.43.0


From 99c70ea76895cb911a94eba6e3962325afdee578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:57 +0000
Subject: [PATCH 30/84] fix: AlignmentDecision returns before the decision
 round and leaves the fitted model as it was

---
 src/lop/active_learning/MixedTypeDecision.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 4d77717..96fa9cc 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -22,6 +22,7 @@
 # Active learning selection algorithms that select between rating or choosing
 
 
+import copy
 import numpy as np
 from lop.active_learning import RateChooseLearner
 import scipy.stats as st
@@ -70,7 +71,8 @@ class AlignmentDecision(RateChooseLearner):
         #abs_idxs = self.abs_l.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
         select_pair = True
-        
+        # scores are only available when the decision metric is used
+        rating_score, pref_score = None, None
 
         if self.num_calls < self.calls_to_decision:
             if self.num_calls % 2 == 0:
@@ -97,6 +99,8 @@ class AlignmentDecision(RateChooseLearner):
 
     def determine_query_type(self, candidate_pts):
         self.pairwise_l.unset_samples()
+        # the model is refit below with parts of the data, its fit is restored at the end
+        model_state = copy.copy(vars(self.model))
         #mu, data = self.pairwise_l.model.predict(candidate_pts)
         M_prev = self.pairwise_l.M
         self.pairwise_l.M = 8000
@@ -170,6 +174,7 @@ class AlignmentDecision(RateChooseLearner):
               ' corr rating = ' + str(np.mean(corr_rating[:-1, -1])))
 
         self.pairwise_l.M = M_prev
+        vars(self.model).update(model_state)
         return align_pref_mu > align_rate_mu, align_rate_mu, align_pref_mu
 
 
-- 
2.43.0


From 3f34345e2cbf91a72f4d87840dbcfe86c1f505f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:57 +0000
Subject: [PATCH 31/84] fix: generalized variance of singular covariances and
 of a single candidate

---
 src/lop/active_learning/GV_UCBLearner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lop/active_learning/GV_UCBLearner.py b/src/lop/active_learning/GV_UCBLearner.py
index 64227a5..b8a5878 100644
--- a/src/lop/active_learning/GV_UCBLearner.py
+++ b/src/lop/active_learning/GV_UCBLearner.py
@@ -53,7 +53,7 @@ class GV_UCBLearner(UCBLearner):
             # generate possible outputs from weighted samples
             all_w = (candidate_pts @ w_samples.T).T
 
-            cov = np.cov(all_w.T)
+            cov = np.atleast_2d(np.cov(all_w.T))
             variance = np.diagonal(cov)
         indicies = list(indicies)
         prev_selection = list(prev_selection)
@@ -62,7 +62,8 @@ class GV_UCBLearner(UCBLearner):
 
         # calculate the Standardized general variance
         # The matrix covariance equivelant to the standard deviation
-        SGV = [np.linalg.det(cov[np.ix_(prev_selection+[idx], prev_selection+[idx])]) ** exp_v for idx in indicies]
+        # (the determinant of a singular covariance can be slightly negative through rounding)
+        SGV = [max(np.linalg.det(cov[np.ix_(prev_selection+[idx], prev_selection+[idx])]), 0.0) ** exp_v for idx in indicies]
 
         selected_GV_UCB = mu[indicies] + self.alpha*np.array(SGV)
 
-- 
2.43.0


From 0dcc6f8c8cad4070d76db6855bca8c32bf9df41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:57 +0000
Subject: [PATCH 32/84] fix: AbsBayesInfo stopped in the debugger and mixed up
 candidates when only some are eligible

---
 src/lop/active_learning/AbsBayesInfo.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lop/active_learning/AbsBayesInfo.py b/src/lop/active_learning/AbsBayesInfo.py
index 6f3ffe5..093ef15 100644
--- a/src/lop/active_learning/AbsBayesInfo.py
+++ b/src/lop/active_learning/AbsBayesInfo.py
@@ -13,8 +13,6 @@ from lop.utilities import metropolis_hastings
 
 from numba import jit
 
-import pdb
-
 class AbsBayesInfo(ActiveLearner):
 
     ## constructor
@@ -79,7 +77,6 @@ class AbsBayesInfo(ActiveLearner):
     def p_q_f_B_unorm(self, q, aa, bb, ml):
         ml_r = np.repeat(ml[:,np.newaxis, :], ml.shape[1], axis=1)
         p_q_f = beta.pdf(q, aa, bb)
-        pdb.set_trace()
         p_q_f_B = np.where(q > ml_r, np.repeat(p_q_f[:,:,np.newaxis], p_q_f.shape[1], axis=2), 0)
         return p_q_f_B
 
@@ -115,7 +112,7 @@ class AbsBayesInfo(ActiveLearner):
         # Calculate p_B
         # all_f = [samples, num_candidate_pts]
         
-        p_b, all_f = self.calc_one_time(candidate_pts[indicies], mu)
+        p_b, all_f = self.calc_one_time(candidate_pts, mu)
 
         ml = self.model.probits[2].mean_link(all_f)
         aa, bb = self.model.probits[2].get_alpha_beta_ml(all_f, ml)
@@ -131,8 +128,9 @@ class AbsBayesInfo(ActiveLearner):
 
         info_gain = H_B - E_q_H_B
 
-        best_idx = np.argmax(info_gain)
-        self.sel_metric = info_gain[best_idx]
+        # info gain is calculated for all candidates, only the given indicies can be selected
+        best_idx = np.argmax(info_gain[indicies])
+        self.sel_metric = info_gain[indicies[best_idx]]
         return indicies[best_idx]
 
 
-- 
2.43.0


From 1c08403a10b904ee786c83859ee2b92aeb0b59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:58 +0000
Subject: [PATCH 33/84] fix: AlignmentDecision works with linear models (unused
 covariance)

---
 src/lop/active_learning/MixedTypeDecision.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 96fa9cc..93ae934 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -108,7 +108,6 @@ class AlignmentDecision(RateChooseLearner):
         
         x_rep, Q_rep = self.pairwise_l.get_representative_Q(candidate_pts)
         mu, sig = self.model.predict(x_rep)
-        all_cov = self.model.cov
         all_rep, all_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
 
 
@@ -125,7 +124,6 @@ class AlignmentDecision(RateChooseLearner):
         self.model.y_train[2] = None
         self.model.optimize()
         mu_pref, sig_pref = self.model.predict(x_rep)
-        pref_cov = self.model.cov
 
         pref_rep, pref_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
 
@@ -137,7 +135,6 @@ class AlignmentDecision(RateChooseLearner):
 
         self.model.optimize()
         mu_rating, sig_rating = self.model.predict(x_rep)
-        rating_cov = self.model.cov
 
         rating_rep, rating_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
         
-- 
2.43.0


From 585b1398c949d39ac427ac1bbae5235be603b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:56 +0000
Subject: [PATCH 34/84] fix: choice probabilities of a batch were nan when the
 sets have very different rewards

---
 src/lop/utilities/human_choice_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/utilities/human_choice_model.py b/src/lop/utilities/human_choice_model.py
index 7b86ed1..aaaa342 100644
--- a/src/lop/utilities/human_choice_model.py
+++ b/src/lop/utilities/human_choice_model.py
@@ -41,7 +41,8 @@ from scipy import stats
 #
 # @return output probability distribution of human choice
 def p_human_choice(r, p=1.0):
-    r = r - np.max(r)
+    # shift by the maximum of each choice set for numerical stability
+    r = r - np.max(r, axis=-1, keepdims=True)
     e = np.exp(r*p) # exponent of r
     if len(r.shape) > 1:
         sum_e = np.sum(e,axis=-1)
-- 
2.43.0


From 0ab48d92accad90b2700d47eaafd3a92f91bde7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:56 +0000
Subject: [PATCH 35/84] fix: information gain was nan when an answer has zero
 probability

---
 src/lop/active_learning/MutualInfoLearner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/MutualInfoLearner.py b/src/lop/active_learning/MutualInfoLearner.py
index c9ff311..707d2a5 100644
--- a/src/lop/active_learning/MutualInfoLearner.py
+++ b/src/lop/active_learning/MutualInfoLearner.py
@@ -109,7 +109,9 @@ class MutualInfoLearner(ActiveLearner):
         sum_p_over_w = np.sum(p, axis=0)
 
         # Find the information gain using the sample equation (4) in [1]
-        info_gain = np.sum(p * np.log2(self.M * p / sum_p_over_w)) / self.M
+        # (an answer with no probability does not contribute)
+        ratio = np.divide(self.M * p, sum_p_over_w, out=np.ones_like(p), where=p > 0)
+        info_gain = np.sum(p * np.log2(ratio)) / self.M
 
         return info_gain
         
-- 
2.43.0


From 0d3daa6d73e8d1121595a01599718b88eae16dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:52 +0000
Subject: [PATCH 36/84] fix: ascent direction when the curvature is not
 negative definite is scaled per direction

---
 src/lop/models/PreferenceModel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 1744434..50a0700 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -424,8 +424,11 @@ class PreferenceModel(Model):
         except np.linalg.LinAlgError:
             uphill = False
         if not uphill:
-            # F - lambda * descent follows the gradient, scaled by the curvature
-            descent = -gradient / max(np.linalg.norm(hess), 1e-10)
+            # F - lambda * descent follows the gradient, scaled by the size of the
+            # curvature in each of its directions
+            curv, dirs = np.linalg.eigh(0.5 * (hess + hess.T))
+            curv = np.maximum(np.abs(curv), 1e-10)
+            descent = -dirs @ ((dirs.T @ gradient) / curv)
 
         if lambda_type == "binary":
             # search along the descent direction for the min point.
-- 
2.43.0


From 57ed3cebed2a590443a9bb6a62fb2d0f3cf5690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 37/84] fix: rho alignment overflowed with large rewards

---
 src/lop/active_learning/AcquisitionBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/AcquisitionBase.py b/src/lop/active_learning/AcquisitionBase.py
index 5dd8d20..209d1a3 100644
--- a/src/lop/active_learning/AcquisitionBase.py
+++ b/src/lop/active_learning/AcquisitionBase.py
@@ -131,7 +131,8 @@ class AcquisitionBase(ActiveLearner):
             return np.zeros((all_rep.shape[0], all_rep.shape[0]))
         
         if self.alignment_f == 'rho':
-            rho_R = np.exp(all_rep)
+            # shift by the maximum of each sample for numerical stability
+            rho_R = np.exp(all_rep - np.max(all_rep, axis=1, keepdims=True))
             rho_R_sum = np.sum(rho_R, axis=1)
             rho_R = rho_R / np.repeat(rho_R_sum[:,np.newaxis], all_rep.shape[1], axis=1)
 
-- 
2.43.0


From 4c925cdae652fb6c7f4d913284df248504e49374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:41 +0000
Subject: [PATCH 38/84] fix: expected alignment of a rating was nan when a
 rating is impossible under every sample

---
 src/lop/active_learning/AbsAcquisition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/active_learning/AbsAcquisition.py b/src/lop/active_learning/AbsAcquisition.py
index 6465872..491c116 100644
--- a/src/lop/active_learning/AbsAcquisition.py
+++ b/src/lop/active_learning/AbsAcquisition.py
@@ -49,6 +49,8 @@ def pq_integrand(q, aa, bb, f):
     M = f.shape[0]
 
     p_q = np.sum(p_q_w, axis=0) / M
+    # ratings with no probability under any of the samples have no weight
+    p_q[p_q == 0] = 1.0
 
     integr = fast_sum_Q(p_q_w, p_q, f, M)
 
-- 
2.43.0


From 5d1fc70dcd73a6a03354cdaa9c663ef4449bafef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:23 +0000
Subject: [PATCH 39/84] fix: expected alignment of a query was nan when one of
 its answers is impossible under every sample

---
 src/lop/active_learning/AcquisitionSelection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index 350a721..761c8b4 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -159,6 +159,8 @@ class AcquisitionSelection(AcquisitionBase):
         align_expand = p_q_w0 * p_q_w1 * f_expand
         E_align_q = np.sum(align_expand, axis=(0,1)) / (self.M * self.M)
         E_p_q = np.mean(p_q, axis=0)
+        # answers with no probability under any of the samples have no weight
+        E_p_q[E_p_q == 0] = 1.0
 
         align_Q = E_align_q / E_p_q
 
-- 
2.43.0


From cd55dc1fc0a5cb9f1d8350dbb0cb9ad963b9bd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:51 +0000
Subject: [PATCH 40/84] fix: Pareto front dropped all but one of equal
 non-dominated items

---
 src/lop/utilities/pareto.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lop/utilities/pareto.py b/src/lop/utilities/pareto.py
index 00a9e44..f40a4b2 100644
--- a/src/lop/utilities/pareto.py
+++ b/src/lop/utilities/pareto.py
@@ -38,8 +38,9 @@ def get_pareto(values, return_mask=False):
     n_points = values.shape[0]
     next_point_index = 0  # Next index in the is_efficient array to search for
     while next_point_index<len(values):
-        nondominated_point_mask = np.any(values>values[next_point_index], axis=1)
-        nondominated_point_mask[next_point_index] = True
+        # items equal to the current one are not dominated by it
+        nondominated_point_mask = np.any(values>values[next_point_index], axis=1) | \
+                                  np.all(values==values[next_point_index], axis=1)
         is_efficient = is_efficient[nondominated_point_mask]  # Remove dominated points
         values = values[nondominated_point_mask]
         next_point_index = np.sum(nondominated_point_mask[:next_point_index])+1
-- 
2.43.0


From 5d7acc9b47fc0bbfa23111e2b423e28a5adc3cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 41/84] fix: choice probabilities of nested batches of sets
 were normalised along the wrong axis

---
 src/lop/utilities/human_choice_model.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/lop/utilities/human_choice_model.py b/src/lop/utilities/human_choice_model.py
index aaaa342..78b2eeb 100644
--- a/src/lop/utilities/human_choice_model.py
+++ b/src/lop/utilities/human_choice_model.py
@@ -44,11 +44,7 @@ def p_human_choice(r, p=1.0):
     # shift by the maximum of each choice set for numerical stability
     r = r - np.max(r, axis=-1, keepdims=True)
     e = np.exp(r*p) # exponent of r
-    if len(r.shape) > 1:
-        sum_e = np.sum(e,axis=-1)
-        return e / sum_e[:,np.newaxis]
-    else:
-        return e / np.sum(e)
+    return e / np.sum(e, axis=-1, keepdims=True)
 
     
 
-- 
2.43.0


From 8b2e3ac5f88bd746ce585ca0a66e2535a8157691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 42/84] fix: generate_ranking_pairs did not return the pairs

---
 src/lop/utilities/preference_pairs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/utilities/preference_pairs.py b/src/lop/utilities/preference_pairs.py
index c70f7fb..073c7ab 100644
--- a/src/lop/utilities/preference_pairs.py
+++ b/src/lop/utilities/preference_pairs.py
@@ -112,5 +112,7 @@ def generate_ranking_pairs(X, real_f):
         for j, idx2 in enumerate(sorted_idx[i+1:]):
             pairs.append((get_dk(1,0), idx1, idx2))
 
+    return pairs
+
 
 
-- 
2.43.0


From fd069c60ca30162042a0326b836667bca147b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 43/84] fix: sampled unique sets left out sets of high indices
 when too many were drawn

---
 src/lop/utilities/sample_utility.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lop/utilities/sample_utility.py b/src/lop/utilities/sample_utility.py
index c0d0526..016ea29 100644
--- a/src/lop/utilities/sample_utility.py
+++ b/src/lop/utilities/sample_utility.py
@@ -36,7 +36,10 @@ def sample_unique_sets_fast(s, num_sets, size_set):
 
         num_unique = all_uniq.shape[0]
 
-    return all_uniq[:num_sets,:]
+    # the unique sets are sorted, drop the surplus evenly
+    if num_unique > num_sets:
+        all_uniq = all_uniq[np.sort(np.random.choice(num_unique, num_sets, replace=False))]
+    return all_uniq
 
 
 
-- 
2.43.0


From da5d04b06a21db5cd337c35df9baca1061c960e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 44/84] fix: k-fold splits could be uneven or empty

---
 src/lop/utilities/training_utility.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lop/utilities/training_utility.py b/src/lop/utilities/training_utility.py
index 221f56f..5217c7c 100644
--- a/src/lop/utilities/training_utility.py
+++ b/src/lop/utilities/training_utility.py
@@ -42,7 +42,8 @@ def k_fold_x_y(X, y, k):
         k = int(N / 2.0)
         if k < 2:
             return None
-    set_max_size = math.ceil(N / k)
+    # sizes of the splits, as even as possible
+    split_sizes = [N // k + (1 if i < N % k else 0) for i in range(k)]
 
     splits = [[] for i in range(k)]
     conn = [set() for i in range(N)]
@@ -67,8 +68,8 @@ def k_fold_x_y(X, y, k):
 
 
         # choose split
-        sizes = [len(splits[i]) for i in range(k)]
-        split_idx = np.argmin(np.array(sizes))
+        room = [split_sizes[i] - len(splits[i]) for i in range(k)]
+        split_idx = np.argmax(np.array(room))
 
         splits[split_idx].append(idx)
 
@@ -77,7 +78,7 @@ def k_fold_x_y(X, y, k):
 
         # try to add as many as possible while still allowing all k fold to even
         for shuf_idx in shuffled_idxs:
-            if len(splits[split_idx]) >= set_max_size:
+            if len(splits[split_idx]) >= split_sizes[split_idx]:
                 break
 
             if shuf_idx not in selected:
-- 
2.43.0


From 998a426e78fa065fd5da65f97d7c35dc0721e04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:45 +0000
Subject: [PATCH 45/84] fix: weighted, squared and mixture reward functions
 disagreed between single items and batches

---
 src/lop/utilities/FakeFunction.py | 32 +++++++++++++------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index 610dc1c..dd2353c 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -145,11 +145,8 @@ class FakeWeightedMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
-        if len(rewards.shape) == 1:
-            return np.max(rewards * self.w)
-        return np.max(rewards * self.w, axis=1)
+            return rewards
+        return np.max(rewards * self.w, axis=-1)
 
     def __str__(self):
         return 'FakeWeightedMax: (w: ' + str(self.w) + ')'
@@ -172,11 +169,8 @@ class FakeWeightedMin(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
-        if len(rewards.shape) == 1:
-            return np.min(rewards * self.w)
-        return np.min(rewards * self.w, axis=1)
+            return rewards
+        return np.min(rewards * self.w, axis=-1)
 
     def __str__(self):
         return 'FakeWeightedMin: (w: ' + str(self.w) + ')'
@@ -199,13 +193,10 @@ class FakeSquaredMinMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
-        if len(rewards.shape) == 1:
-            return np.max(rewards * self.w)
+            return rewards
         vals = rewards * self.w
-        mins = np.min(vals, axis=1)
-        return np.sqrt(np.max(vals, axis=1)) + mins*mins
+        mins = np.min(vals, axis=-1)
+        return np.sqrt(np.max(vals, axis=-1)) + mins*mins
 
     def __str__(self):
         return 'FakeSquaredMinMax: (w: ' + str(self.w) + ')'
@@ -262,14 +253,17 @@ class FakeMixtureGaussian(FakeFunction):
     def calc(self, rewards):
         
 
-        if isinstance(rewards, np.ndarray):
+        if not isinstance(rewards, np.ndarray):
+            z = 0
+        elif self.dim == 1 and len(rewards.shape) == 1:
             z = np.zeros(rewards.shape[0])
         else:
-            z = 0
+            # one value for each item, a single value for a single item
+            z = np.zeros(rewards.shape[:-1])
 
         for i in range(self.num_kerns):
             #z += norm.pdf(rewards, loc=self.means[i], scale=self.sigs[i])
-            z += multivariate_normal.pdf(rewards, mean=self.means[i], cov=self.covs[i])
+            z = z + multivariate_normal.pdf(rewards, mean=self.means[i], cov=self.covs[i])
 
         return z
 
-- 
2.43.0


From 239221e389e6a1bb14e7d60d531719448cff6c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 46/84] fix: gamma density overflowed for large shape
 parameters

---
 src/lop/utilities/gamma_dist.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lop/utilities/gamma_dist.py b/src/lop/utilities/gamma_dist.py
index fdaa459..04550ec 100644
--- a/src/lop/utilities/gamma_dist.py
+++ b/src/lop/utilities/gamma_dist.py
@@ -24,7 +24,7 @@
 # Also allows both k and theta parameter directly to be specified
 
 import numpy as np
-from scipy.special import gamma
+from scipy.special import gammaln, xlogy
 
 
 
@@ -36,9 +36,10 @@ from scipy.special import gamma
 # @param k - the shape parameter of the gamma distribution
 # @param theta - the scale parameter of the gamma distribution
 def pdf_gamma(x, k, theta):
-    term1 = 1 / (gamma(k) * (theta**k))
-    
-    return term1 * (x ** (k-1)) * np.exp(-x / theta)
+    # in logarithms, gamma(k) and theta**k overflow for large k
+    log_term1 = -gammaln(k) - k*np.log(theta)
+
+    return np.exp(log_term1 + xlogy(k-1, x) - x / theta)
 
 ## log_pdf_gamma
 # returns the log of the pdf of the gamma distribution (k, theta derivation)
@@ -48,10 +49,10 @@ def pdf_gamma(x, k, theta):
 # @param k - the shape parameter of the gamma distribution
 # @param theta - the scale parameter of the gamma distribution
 def log_pdf_gamma(x, k, theta):
-    term1 = 1 / (gamma(k) * (theta**k))
+    log_term1 = -gammaln(k) - k*np.log(theta)
 
     x_cliped = np.where(x < 0.000001, 0.000001, x)
-    gam = np.log(term1) + (k-1)*np.log(x_cliped) - (x_cliped / theta)
+    gam = log_term1 + (k-1)*np.log(x_cliped) - (x_cliped / theta)
     
     gam = np.where(x < 0, -np.inf, gam)
     return gam
-- 
2.43.0


From 21026d9fe1c5a36b509b5a6d3614f80497ce289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:18 +0000
Subject: [PATCH 47/84] fix: independent and switch normal probabilities
 divided by the variance, switch failed without correlation

---
 src/lop/utilities/probability_utility.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/utilities/probability_utility.py b/src/lop/utilities/probability_utility.py
index 5ee8d68..4f887c1 100644
--- a/src/lop/utilities/probability_utility.py
+++ b/src/lop/utilities/probability_utility.py
@@ -38,7 +38,7 @@ def calc_cdf(mu, cov, method='mvn'):
 
     elif method == 'independent':
         
-        return np.prod(spec.ndtr((0 - mu) / np.diagonal(cov)))
+        return np.prod(spec.ndtr((0 - mu) / np.sqrt(np.diagonal(cov))))
 
 
     elif method == 'switch':
@@ -50,6 +50,8 @@ def calc_cdf(mu, cov, method='mvn'):
 
         while cov.shape[0] > 1:
             idx = np.unravel_index(np.argmax(mod_cov), cov.shape)
+            if idx[0] == idx[1]: # no correlation left
+                idx = (0, 1)
 
             #pdb.set_trace()
 
@@ -70,7 +72,7 @@ def calc_cdf(mu, cov, method='mvn'):
             mu = np.delete(mu, idx, 0)
 
         if cov.shape[0] == 1:
-            p *= spec.ndtr((0 - mu[0]) / cov[0,0])
+            p *= spec.ndtr((0 - mu[0]) / np.sqrt(cov[0,0]))
 
         return p
     
-- 
2.43.0


From fdcff6e435858a35916ade9fd146ada8afcb2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:10 +0000
Subject: [PATCH 48/84] fix: rationality calibration saturated for well
 separated rewards

---
 src/lop/utilities/HumanChoiceUser2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/utilities/HumanChoiceUser2.py b/src/lop/utilities/HumanChoiceUser2.py
index 50f53db..f3246a2 100644
--- a/src/lop/utilities/HumanChoiceUser2.py
+++ b/src/lop/utilities/HumanChoiceUser2.py
@@ -116,14 +116,16 @@ class HumanChoiceUser2(HumanChoiceUser):
         #print(res)
 
         ## Pairwise tuning
-        res = minimize_scalar(self.obj, bounds=[0.01, 200.0], args=(diffs, p), options={'xatol': 0.001})
+        # searched in the logarithm, the objective is flat for large beta with well separated rewards
+        res = minimize_scalar(lambda log_beta: self.obj(np.exp(log_beta), diffs, p), \
+                                bounds=np.log([0.01, 200.0]), options={'xatol': 0.001})
 
         f_list = [[self.fake_f(r_problem) for r_problem in r_env] for r_env in rewards]
         min_max = np.array([min([min([np.min(f1) for f1 in f2]) for f2 in f_list]),  \
                             max([max([np.max(f1) for f1 in f2]) for f2 in f_list])])            
 
         self.k, self.b = self.get_k_b(min_max)
-        self.beta = res.x
+        self.beta = np.exp(res.x)
 
         
 
-- 
2.43.0


From 44b0bfe7dc1b7afcacb51975d577ff288174e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:05 +0000
Subject: [PATCH 49/84] fix: preference models keep their own copy of the
 indices passed with ordinal and absolute labels

---
 src/lop/models/PreferenceModel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 50a0700..843e84d 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -234,7 +234,8 @@ class PreferenceModel(Model):
                 new_y[:,0] = y
                 new_y[:,1] = np.arange(0, y.shape[0]) + len_X
             else:
-                new_y = y
+                # copied, the caller may change its own array afterwards
+                new_y = np.array(y)
 
             if (new_y[:,0] <= 0).any():
                 raise Exception("Can't pass ordinal with 0 rating (must all be positive ordinal values)")
@@ -251,7 +252,8 @@ class PreferenceModel(Model):
         elif type == 'abs':
             if isinstance(y, tuple):
                 v = y[0]
-                idxs = y[1]
+                # copied, the caller may change its own array afterwards
+                idxs = np.array(y[1])
             elif isinstance(y, np.ndarray):
                 v = y
                 idxs = np.arange(len_X, y.shape[0]+len_X)
-- 
2.43.0


From 796e6e1d4e54a7cdd4b1ed4cbe40894c3409595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:05 +0000
Subject: [PATCH 50/84] fix: ordinal probit keeps its own copy of the
 breakpoints

---
 src/lop/probits/OrdinalProbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 9db5e50..f6b7403 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -93,7 +93,7 @@ class OrdinalProbit(ProbitBase):
             b = abs(b)
             self.b = np.hstack(([-np.inf],np.linspace(0, b, self.n_ordinals-1), [np.inf]))
         elif len(b) == self.n_ordinals+1:
-            self.b = b
+            self.b = np.array(b)
         elif len(b) == self.n_ordinals-1:
             self.b = np.hstack(([-np.inf], b, [np.inf]))
         else:
-- 
2.43.0


From 82ec297770a94568248463df103cc48bdb123b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:05 +0000
Subject: [PATCH 51/84] fix: zeroed RBF kernel keeps its own copy of the zero
 point

---
 src/lop/kernels/RBF_kern_zeroed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lop/kernels/RBF_kern_zeroed.py b/src/lop/kernels/RBF_kern_zeroed.py
index fd77437..b4445bc 100644
--- a/src/lop/kernels/RBF_kern_zeroed.py
+++ b/src/lop/kernels/RBF_kern_zeroed.py
@@ -43,7 +43,8 @@ class RBF_kern_zeroed(RBF_kern):
     def __init__(self, sigma, l, zero_pt=None, sigma_noise=0.01):
         super(RBF_kern_zeroed, self).__init__(sigma, l, sigma_noise=sigma_noise)
 
-        self.zero_pt = zero_pt
+        # copied, the caller may change its own array afterwards
+        self.zero_pt = None if zero_pt is None else np.array(zero_pt)
 
 
     def lazy_zero_pt_init(self, u):
-- 
2.43.0


From afc8686d8b814946188e17036807a5db9b35935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:05 +0000
Subject: [PATCH 52/84] fix: learners keep their own copy of the options
 dictionary

---
 src/lop/active_learning/AcquisitionBase.py   | 3 ++-
 src/lop/active_learning/RateChooseLearner.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lop/active_learning/AcquisitionBase.py b/src/lop/active_learning/AcquisitionBase.py
index 209d1a3..4159a1e 100644
--- a/src/lop/active_learning/AcquisitionBase.py
+++ b/src/lop/active_learning/AcquisitionBase.py
@@ -56,7 +56,8 @@ class AcquisitionBase(ActiveLearner):
         super(AcquisitionBase, self).__init__(default_to_pareto,always_select_best)
 
         self.rep_Q_method = rep_Q_method
-        self.rep_Q_data = rep_Q_data
+        # copied, so learners do not share one dictionary
+        self.rep_Q_data = dict(rep_Q_data)
         self.alignment_f = alignment_f
 
         self.samples_set = False
diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index 8628167..421f5ec 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -215,7 +215,7 @@ class MixedComparisionSetFixed(RateChooseLearner):
 
         self.comp_func = comp_func
         self.num_calls = 0
-        self.params = params
+        self.params = dict(params)
 
     
 
-- 
2.43.0


From 5514b55ffa7454cb20f68736210e5638e83069d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:08 +0000
Subject: [PATCH 53/84] fix: implicit term of the kernel hyper-parameter
 gradient is a product, not a difference

---
 src/lop/models/PreferenceGP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 48e1001..96ddc33 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -568,7 +568,7 @@ class PreferenceGP(PreferenceModel):
             # Equation 209
             termB_1 = 0.5 * np.trace(B_inv @ K @ dW_f, axis1=1, axis2=2)
 
-            dL_cov_f[i] = termA_1 - termA_2 + np.sum(termB_2 - termB_1)
+            dL_cov_f[i] = termA_1 - termA_2 - termB_1 @ termB_2
 
 
         # Liklihood function parameters
-- 
2.43.0


From 45dfd2f72fab69079bed9e6a8e6e6ce6047baaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:08 +0000
Subject: [PATCH 54/84] fix: likli_f_hyper raised AttributeError outside of a
 hyper-parameter search

---
 src/lop/models/PreferenceGP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 96ddc33..f23bb93 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -86,6 +86,7 @@ class PreferenceGP(PreferenceModel):
 
         self.delta_f = 0.0002 # set the convergence to stop
         self.maxloops = 100
+        self.debug_print = False
         
 
 
-- 
2.43.0


From 58a1e80938b4b4d56165cc9901bd04c7625f370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:53 +0000
Subject: [PATCH 55/84] fix: representative queries pointed past the shared
 samples of a mixed learner

---
 src/lop/active_learning/AcquisitionBase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lop/active_learning/AcquisitionBase.py b/src/lop/active_learning/AcquisitionBase.py
index 4159a1e..c1d87f0 100644
--- a/src/lop/active_learning/AcquisitionBase.py
+++ b/src/lop/active_learning/AcquisitionBase.py
@@ -91,6 +91,9 @@ class AcquisitionBase(ActiveLearner):
                 num_X_train = X_train.shape[0]
 
             N = min(num_X_train, N)
+            if self.samples_set:
+                # shared samples may have fewer representative points
+                N = min(N, self.all_rep.shape[1])
             X_pts = X_train[np.random.choice(num_X_train, N, replace=False)]
 
             num_Q = min(num_Q, math.comb(N, num_alts))
-- 
2.43.0


From 36f93b42850312cf166036bc7d18a2c10c0c8a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 56/84] fix: rank correlation of an evaluation compared lists
 of indices, not ranks

---
 experiments/experiment_helper.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index 78ea8cc..0b638f3 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -27,6 +27,7 @@ import sys
 import pickle
 from sklearn_extra.cluster import KMedoids
 import scipy.spatial as spa
+from scipy.stats import rankdata
 import pdb
 
 import lop
@@ -833,9 +834,7 @@ def evaluation(env_num, utility_f, config, model, eval_data):
 
 
         # calculate spearman and pearson correlation
-        score_sort = np.argsort(scores)[::-1]
-
-        spearman = np.corrcoef(np.array([sorted_idx, score_sort]))[0,1]
+        spearman = np.corrcoef(np.array([rankdata(fake_utility), rankdata(scores)]))[0,1]
         pearson = np.corrcoef(np.array([fake_utility, scores]))[0,1]
 
         # calculate rho space
-- 
2.43.0


From 51effb53ad46f399f141bfa1514ff98602a29f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 57/84] fix: evaluation looked up Pareto-optimal paths by their
 index among all paths

---
 experiments/experiment_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index 0b638f3..7ecd8a9 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -824,7 +824,7 @@ def evaluation(env_num, utility_f, config, model, eval_data):
         rewards = rewards[indicies['pareto']]
         scores = model(rewards)
 
-        best_idx = model.active_learner.select_best(scores, set(indicies['pareto']))
+        best_idx = model.active_learner.select_best(scores, set(range(len(scores))))
         indicies['best'] = best_idx
 
         fake_utility = utility_f(rewards)
-- 
2.43.0


From 9c14b19a286b34ca45f0a83cecf504843c7b680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 58/84] fix: choice distributions of an evaluation overflowed
 with large rewards

---
 experiments/experiment_helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index 7ecd8a9..baf5c08 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -838,8 +838,8 @@ def evaluation(env_num, utility_f, config, model, eval_data):
         pearson = np.corrcoef(np.array([fake_utility, scores]))[0,1]
 
         # calculate rho space
-        rho_w = np.exp(scores)
-        rho = np.exp(fake_utility)
+        rho_w = np.exp(scores - np.max(scores))
+        rho = np.exp(fake_utility - np.max(fake_utility))
 
         rho_w = rho_w / np.sum(rho_w)
         rho = rho / np.sum(rho)
-- 
2.43.0


From 41f9671451e000a08d6fbcf4e76eba57ca3db6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 59/84] fix: experiments with the perfect user failed, it has
 no rationality to tune

---
 experiments/experiment_helper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index baf5c08..5e15c11 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -561,7 +561,9 @@ def train_and_eval(config_filename,
 
     #     user_f.fake_f.randomize()
 
-    user_f.learn_beta(eval_rew, p_synth_pair, Q_size=2, p_sigma=p_synth_abs)
+    # the perfect user makes no errors to tune
+    if synth_user != 'perfect':
+        user_f.learn_beta(eval_rew, p_synth_pair, Q_size=2, p_sigma=p_synth_abs)
 
     # while True:
     #     try:
-- 
2.43.0


From cc009b24f80faef4be16902570972a17698638b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 60/84] fix: k-medoid downsampling ignored the requested number
 of points

---
 experiments/experiment_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index 5e15c11..d6cac0a 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -709,7 +709,7 @@ def train_and_eval(config_filename,
 
         if use_kmedoid == 'True' or use_kmedoid == 'true':
             if rewards.shape[0] > config['downselect_num']:
-                kmed = KMedoids(n_clusters=60).fit(rewards)
+                kmed = KMedoids(n_clusters=config['downselect_num']).fit(rewards)
                 rewards = kmed.cluster_centers_
                 print('Downselected using k-medoids')
         elif use_kmedoid == 'uni':
-- 
2.43.0


From 5507fb28c00d4249e59963e3cf01f6732a733d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 61/84] fix: experiments with AlignmentDecision used the scores
 it returns as selected paths

---
 experiments/experiment_helper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index d6cac0a..985b9bf 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -766,6 +766,9 @@ def train_and_eval(config_filename,
             query_is_correct[itr+1] = -1
         elif selection_type == 'switch':
             sel_idx = model.select(rewards, num_alts)
+            # AlignmentDecision also returns the scores of both query types
+            if isinstance(sel_idx, tuple):
+                sel_idx = sel_idx[0]
             x_train = rewards[sel_idx]
             
 
-- 
2.43.0


From 0ce74bfe46e2c324a191db70b2bc971ae4c40d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 62/84] fix: four of the offered selectors built no active
 learner

---
 experiments/experiment_helper.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index 985b9bf..f57fbf2 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -331,12 +331,36 @@ def get_active_learner(selector, selection_type, rep_pt_type, UCB_scalar, defaul
         abs_l = lop.UCBLearner(UCB_scalar)
         al = lop.MixedStrategyPeak2(pairwise_l=pair, abs_l=abs_l, default_to_pareto=default_to_pareto, 
                                     always_select_best=always_select_best, p_abs_param=alpha)
+    elif selector == 'SW_MIX_PEAK2_LL':
+        pair = lop.AcquisitionSelection(M=M, alignment_f='loglikelihood',
+                                    rep_Q_method = rep_type, rep_Q_data = rep_pt_data)
+        abs_l = lop.UCBLearner(UCB_scalar)
+        al = lop.MixedStrategyPeak2(pairwise_l=pair, abs_l=abs_l, default_to_pareto=default_to_pareto, 
+                                    always_select_best=always_select_best, p_abs_param=alpha)
+    elif selector == 'SW_MIX_PEAK2_EPIC':
+        pair = lop.AcquisitionSelection(M=M, alignment_f='epic',
+                                    rep_Q_method = rep_type, rep_Q_data = rep_pt_data)
+        abs_l = lop.UCBLearner(UCB_scalar)
+        al = lop.MixedStrategyPeak2(pairwise_l=pair, abs_l=abs_l, default_to_pareto=default_to_pareto, 
+                                    always_select_best=always_select_best, p_abs_param=alpha)
     elif selector == 'SW_MIX_PEAK3_SPEAR':
         pair = lop.AcquisitionSelection(M=M, alignment_f='spearman',
                                     rep_Q_method = rep_type, rep_Q_data = rep_pt_data)
         abs_l = lop.UCBLearner(UCB_scalar)
         al = lop.MixedStrategyPeak3(pairwise_l=pair, abs_l=abs_l, default_to_pareto=default_to_pareto, 
                                     always_select_best=always_select_best, p_abs_param=alpha)
+    elif selector == 'SW_MIX_PEAK3_LL':
+        pair = lop.AcquisitionSelection(M=M, alignment_f='loglikelihood',
+                                    rep_Q_method = rep_type, rep_Q_data = rep_pt_data)
+        abs_l = lop.UCBLearner(UCB_scalar)
+        al = lop.MixedStrategyPeak3(pairwise_l=pair, abs_l=abs_l, default_to_pareto=default_to_pareto, 
+                                    always_select_best=always_select_best, p_abs_param=alpha)
+    elif selector == 'SW_MIX_PEAK3_EPIC':
+        pair = lop.AcquisitionSelection(M=M, alignment_f='epic',
+                                    rep_Q_method = rep_type, rep_Q_data = rep_pt_data)
+        abs_l = lop.UCBLearner(UCB_scalar)
+        al = lop.MixedStrategyPeak3(pairwise_l=pair, abs_l=abs_l, default_to_pareto=default_to_pareto, 
+                                    always_select_best=always_select_best, p_abs_param=alpha)
     elif selector == 'SW_MIX_REV_PEAK_SPEAR':
         pair = lop.AcquisitionSelection(M=M, alignment_f='spearman',
                                     rep_Q_method = rep_type, rep_Q_data = rep_pt_data)
-- 
2.43.0


From ef4c625680ae1e6a73361176547256881155576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 63/84] fix: two selectors ignored the requested representative
 points

---
 experiments/experiment_helper.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index f57fbf2..c9fcf4c 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -133,8 +133,10 @@ def get_active_learner(selector, selection_type, rep_pt_type, UCB_scalar, defaul
         al = lop.RateChooseLearner(pairwise_l=pair, abs_l=abs_l, default_to_pareto=default_to_pareto, 
                                     always_select_best=always_select_best)
     elif selector == 'SW_ACQ_SPEAR':
-        abs_l = lop.AbsAcquisition(M=M, alignment_f='spearman')
-        pair = lop.AcquisitionSelection(M=M, alignment_f='spearman')
+        abs_l = lop.AbsAcquisition(M=M, alignment_f='spearman',
+                                    rep_Q_method = rep_type, rep_Q_data = rep_pt_data)
+        pair = lop.AcquisitionSelection(M=M, alignment_f='spearman',
+                                    rep_Q_method = rep_type, rep_Q_data = rep_pt_data)
         al = lop.RateChooseLearner(pairwise_l=pair, abs_l=abs_l, default_to_pareto=default_to_pareto, 
                                     always_select_best=always_select_best)
     elif selector == 'SW_BAYES_PROBIT':
@@ -229,7 +231,8 @@ def get_active_learner(selector, selection_type, rep_pt_type, UCB_scalar, defaul
         al = lop.AlignmentDecision(pairwise_l=pair, abs_l=abs_l,num_calls_decision=2, default_to_pareto=default_to_pareto, 
                                     always_select_best=always_select_best) 
     elif selector == 'SW_DEC_LL':
-        pair = lop.AcquisitionSelection(M=M, alignment_f='loglikelihood')
+        pair = lop.AcquisitionSelection(M=M, alignment_f='loglikelihood',
+                                    rep_Q_method = rep_type, rep_Q_data = rep_pt_data)
         abs_l = lop.UCBLearner(UCB_scalar)
         al = lop.AlignmentDecision(pairwise_l=pair, abs_l=abs_l,num_calls_decision=2, default_to_pareto=default_to_pareto, 
                                     always_select_best=always_select_best) 
-- 
2.43.0


From c488be4339871b3c6caf2f787a52dd167b5d5281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 64/84] fix: rating selector ABS_BAYES_PROBIT built the
 pairwise learner

---
 experiments/experiment_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index c9fcf4c..ef853d2 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -68,7 +68,7 @@ def get_active_learner(selector, selection_type, rep_pt_type, UCB_scalar, defaul
     elif selector == 'BAYES_INFO_GAIN_PROBIT':
         al = lop.BayesInfoGain(default_to_pareto, always_select_best,p_q_B_method='probit')
     elif selector == 'ABS_BAYES_PROBIT':
-        al = lop.BayesInfoGain(default_to_pareto, always_select_best,p_q_B_method='probit')
+        al = lop.AbsBayesInfo(M=M, default_to_pareto=default_to_pareto, always_select_best=always_select_best)
     elif selector == 'BAYES_INFO_GAIN_999':
         al = lop.BayesInfoGain(default_to_pareto, always_select_best,p_q_B_method='999')
     elif selector == 'ACQ_RHO':
-- 
2.43.0


From 69b5b3c8bba23af6ba097dcd9cde3316dab0ee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:09 +0000
Subject: [PATCH 65/84] fix: selector MUTUAL_INFO_PERF was not given the
 function it needs

---
 experiments/experiment_helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index ef853d2..8367687 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -560,7 +560,6 @@ def train_and_eval(config_filename,
     config['alpha'] = alpha
 
     #### Get required models and fake functions
-    active_learner = get_active_learner(selector, selection_type, rep_pt_type, UCB_scaler, default_pareto, config)
     config['sigma_pair'] = sigma_pair
     config['sigma_abs'] = sigma_abs
     config['v'] = v
@@ -568,8 +567,9 @@ def train_and_eval(config_filename,
     config['alpha_fake'] = alpha_fake
     # config['rbf_lengthscale'] = rbf_l
 
-    model = get_model(model_desc, active_learner, hyper, config)
     utility_f = get_fake_func(fake_function_desc, config)
+    active_learner = get_active_learner(selector, selection_type, rep_pt_type, UCB_scaler, default_pareto, config, utility_f)
+    model = get_model(model_desc, active_learner, hyper, config)
     user_f = get_synth_user(synth_user, utility_f, config)
 
     eval_rew = [[env_p['rewards'] for env_p in data_env] for data_env in eval_data]
-- 
2.43.0


From 62b2b20209ea10efd99a530d88530f6e394c39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:30 +0000
Subject: [PATCH 66/84] fix: an interrupted experiment saved an unfinished run
 of uninitialized numbers

---
 experiments/single_experiment.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/experiments/single_experiment.py b/experiments/single_experiment.py
index 7aaa914..c20c5bb 100644
--- a/experiments/single_experiment.py
+++ b/experiments/single_experiment.py
@@ -212,11 +212,11 @@ def main():
     query_type_is_abs = np.empty((num_runs, num_train+1))
     query_is_correct = np.empty((num_runs, num_train+1))
 
-    cur_run = 0
+    # number of runs whose data is complete
+    completed = 0
     try:
         path_data = None
         for j in tqdm(range(num_runs)):
-            cur_run = j
             run_folder = folder_name+'run_'+str(j)+'/'
             os.mkdir(run_folder)
             print('VERBOSE: ' + str(args.v))
@@ -262,6 +262,7 @@ def main():
             pearsons[j] = pearson
             rhos[j] = rho
             score_diff[j] = s_diff
+            completed = j+1
 
             print('Updating savez file with data from run: '+str(j))
             np.savez(folder_name+'train_data', 
@@ -278,20 +279,18 @@ def main():
                     query_is_correct = query_is_correct[:j+1])
 
     except KeyboardInterrupt:
-        j = cur_run
-
         np.savez(folder_name+'train_data', 
-                    avg_correct=avg_correct[:j+1], 
-                    avg_ranks=avg_ranks[:j+1], \
-                    ranks=ranks[:j+1], 
-                    estimated_scores=estimated_scores[:j+1], \
-                    real_scores = real_scores[:j+1], \
-                    spearmans = spearmans[:j+1], \
-                    pearsons = pearsons[:j+1], \
-                    rhos = rhos[:j+1], \
-                    score_diff = score_diff[:j+1], \
-                    query_type_is_abs = query_type_is_abs[:j+1], \
-                    query_is_correct = query_is_correct[:j+1])
+                    avg_correct=avg_correct[:completed], 
+                    avg_ranks=avg_ranks[:completed], \
+                    ranks=ranks[:completed], 
+                    estimated_scores=estimated_scores[:completed], \
+                    real_scores = real_scores[:completed], \
+                    spearmans = spearmans[:completed], \
+                    pearsons = pearsons[:completed], \
+                    rhos = rhos[:completed], \
+                    score_diff = score_diff[:completed], \
+                    query_type_is_abs = query_type_is_abs[:completed], \
+                    query_is_correct = query_is_correct[:completed])
         sys.exit(0)
 
 if __name__ == '__main__':
-- 
2.43.0


From ef8ca6c72a5e29cb1b415154cb7f2552ba2f9b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:30 +0000
Subject: [PATCH 67/84] fix: data of an experiment with a named results folder
 was saved beside it

---
 experiments/single_experiment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/single_experiment.py b/experiments/single_experiment.py
index c20c5bb..7df129f 100644
--- a/experiments/single_experiment.py
+++ b/experiments/single_experiment.py
@@ -187,7 +187,7 @@ def main():
             '_sigabs_' + str(args.sigma_abs) + '_sigpair_'+str(args.sigma_pair)+'_alpha_'+str(args.alpha)+\
             '_rbfl_'+str(args.rbf_l)+'_rbfsig_'+str(args.rbf_sigma)+'_env'+str(args.env)+'_'+str_timestamp()+'/'
     else:
-        folder_name = 'results/'+args.dir
+        folder_name = os.path.join('results', args.dir, '')
 
 
 
-- 
2.43.0


From 4b83c79a7f494f5191c1a3a8fb40fc398680ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:30 +0000
Subject: [PATCH 68/84] fix: FakeMinLog has no weights, recording its
 experiments failed

---
 src/lop/utilities/FakeFunction.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index dd2353c..fa91de5 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -307,6 +307,11 @@ class FakeMinLog(FakeFunction):
         self.min.randomize()
         self.logistic.randomize()
 
+    # the weights of the weighted minimum
+    @property
+    def w(self):
+        return self.min.w
+
     def calc(self, rewards):
         m_f = self.min.calc(rewards)
         l_f = self.logistic.calc(rewards)
-- 
2.43.0


From 47e455f0070965ad96c66ca37fe0cf1ee3484f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:30 +0000
Subject: [PATCH 69/84] fix: RateChooseLearner works with the information gain
 learners, which share no samples

---
 src/lop/active_learning/AbsBayesInfo.py      |  1 +
 src/lop/active_learning/BayesInfoGain.py     |  3 +++
 src/lop/active_learning/RateChooseLearner.py | 20 +++++++++++---------
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/lop/active_learning/AbsBayesInfo.py b/src/lop/active_learning/AbsBayesInfo.py
index 093ef15..2e41065 100644
--- a/src/lop/active_learning/AbsBayesInfo.py
+++ b/src/lop/active_learning/AbsBayesInfo.py
@@ -107,6 +107,7 @@ class AbsBayesInfo(ActiveLearner):
 
         # If there is no data, just provide a random selection
         if self.model.X_train is None:
+            self.sel_metric = 0
             return np.random.choice(list(indicies), 1)[0]
 
         # Calculate p_B
diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 79a4b15..dded919 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -130,6 +130,7 @@ class BayesInfoGain(ActiveLearner):
 
         # If there is no data, just provide a random selection
         if self.model.X_train is None:
+            self.sel_metric = 0
             return np.random.choice(list(indicies), 1)[0]
 
         if debug:
@@ -157,6 +158,7 @@ class BayesInfoGain(ActiveLearner):
 
             if len(Q) < 2:
                 # THIS IS PROBABLY NOT THE RIGHT WAY TO HANDLE THIS
+                self.sel_metric = 0
                 return np.random.choice(indicies)
                 #return np.argmax(p_B)
 
@@ -178,6 +180,7 @@ class BayesInfoGain(ActiveLearner):
         p_B, probit_mat = self.get_p_B_probit(candidate_pts, mu)
 
         if self.model.X_train is None:
+            self.sel_metric = 0
             idxs = np.random.choice(list(indicies), 2, replace=False)
             return (idxs[0], idxs[1])
 
diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index 421f5ec..96be460 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -66,15 +66,17 @@ class RateChooseLearner(ActiveLearner):
     #          selection values for candidate_pts,
     #          only returns highest mean if "always select best is set"
     def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
-        # generate sampled points
-        self.pairwise_l.unset_samples()
-        mu, data = self.pairwise_l.model.predict(candidate_pts)
-        x_rep, Q_rep = self.pairwise_l.get_representative_Q(candidate_pts)
-        all_rep, all_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
-        
-        # set samples
-        self.pairwise_l.set_samples(all_rep, all_Q)
-        self.abs_l.set_samples(all_rep, all_Q)
+        # only the acquisition learners compare sampled reward functions
+        if hasattr(self.pairwise_l, 'set_samples') and hasattr(self.abs_l, 'set_samples'):
+            # generate sampled points
+            self.pairwise_l.unset_samples()
+            mu, data = self.pairwise_l.model.predict(candidate_pts)
+            x_rep, Q_rep = self.pairwise_l.get_representative_Q(candidate_pts)
+            all_rep, all_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
+            
+            # set samples
+            self.pairwise_l.set_samples(all_rep, all_Q)
+            self.abs_l.set_samples(all_rep, all_Q)
         
         
         pair_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
-- 
2.43.0


From 820b4f94d87b5422d02b4d4f642b0baeb405760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:45 +0000
Subject: [PATCH 70/84] fix: verbose experiments failed before the first query

---
 experiments/experiment_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index 8367687..4a37c66 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -717,7 +717,7 @@ def train_and_eval(config_filename,
     ##### Start main training loop
     for itr, i in enumerate(rand_order):
         if verbose:
-            print('\t\tNUMBER of X_train: ' + str(len(model.X_train)))
+            print('\t\tNUMBER of X_train: ' + str(0 if model.X_train is None else len(model.X_train)))
 
 
         ##### Extract rewards for environment domain
-- 
2.43.0


From 8e1d5ae1e990f05fb0b2e62c5a43da733d4c546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:16 +0000
Subject: [PATCH 71/84] fix: mixed learners ignored default_to_pareto and
 always_select_best

---
 src/lop/active_learning/RateChooseLearner.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index 96be460..7b5f868 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -45,6 +45,14 @@ class RateChooseLearner(ActiveLearner):
         self.pairwise_l = pairwise_l
         self.abs_l = abs_l
 
+        # the sub learners make the selections, so the options need to be set for them.
+        if default_to_pareto:
+            self.pairwise_l.default_to_pareto = True
+            self.abs_l.default_to_pareto = True
+        # a rating query has a single solution, which is not always the top solution
+        if always_select_best:
+            self.pairwise_l.always_select_best = True
+
     #overide
     ## select
     # Selects the given points (overriden from ActiveLearning)
-- 
2.43.0


From eae408c74ded22d608d2d89e187eb820c5b16aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:41 +0000
Subject: [PATCH 72/84] fix: experiment crashed when environments hold
 different numbers of evaluation problems

---
 experiments/experiment_helper.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index 4a37c66..76da418 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -691,14 +691,14 @@ def train_and_eval(config_filename,
     avg_selection = np.zeros(num_training+1)
     query_type_is_abs = np.zeros(num_training+1, dtype=int) - 1
     query_is_correct = np.zeros(num_training+1, dtype=int) - 1
-    all_ranks = np.zeros((num_training+1, len(eval_data[0])))
-
-    estimated_scores = np.zeros((num_training+1, len(eval_data[0])))
-    real_scores = np.zeros((num_training+1, len(eval_data[0])))
-    score_diff = np.zeros((num_training+1, len(eval_data[0])))
-    spearmans = np.zeros((num_training+1, len(eval_data[0])))
-    pearsons = np.zeros((num_training+1, len(eval_data[0])))
-    rhos = np.zeros((num_training+1, len(eval_data[0])))
+    all_ranks = np.zeros((num_training+1, len(eval_data[env_num])))
+
+    estimated_scores = np.zeros((num_training+1, len(eval_data[env_num])))
+    real_scores = np.zeros((num_training+1, len(eval_data[env_num])))
+    score_diff = np.zeros((num_training+1, len(eval_data[env_num])))
+    spearmans = np.zeros((num_training+1, len(eval_data[env_num])))
+    pearsons = np.zeros((num_training+1, len(eval_data[env_num])))
+    rhos = np.zeros((num_training+1, len(eval_data[env_num])))
 
     # test untrained model
     accuracy[0], avg_selection[0], all_ranks[0], estimated_scores[0], real_scores[0], score_diff[0], spearmans[0], pearsons[0], rhos[0] = \
-- 
2.43.0


From 9310b7aabbd4b74ee86538032edb6c058b8fed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:41 +0000
Subject: [PATCH 73/84] fix: with pareto_pairs an experiment preferred the
 first paths instead of the Pareto optimal ones

---
 experiments/experiment_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index 76da418..ffdfcbc 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -757,7 +757,7 @@ def train_and_eval(config_filename,
         if selection_type == 'choose1' or selection_type == 'ranking':
             if config['pareto_pairs']:
                 sel_idx, non_shown_paths = model.select(rewards, num_alts, 
-                                                        prefer_pts=len(indicies['pareto']),
+                                                        prefer_pts='pareto',
                                                         return_not_selected=True)
             else:
                 sel_idx = model.select(rewards, num_alts)
-- 
2.43.0


From 7ffef208477c9d193b38b9500a726874712c9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:40 +0000
Subject: [PATCH 74/84] fix: tuning the fake user assumed that every
 environment has as many problems as the first

---
 src/lop/utilities/HumanChoiceUser2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lop/utilities/HumanChoiceUser2.py b/src/lop/utilities/HumanChoiceUser2.py
index f3246a2..79389e8 100644
--- a/src/lop/utilities/HumanChoiceUser2.py
+++ b/src/lop/utilities/HumanChoiceUser2.py
@@ -83,7 +83,7 @@ class HumanChoiceUser2(HumanChoiceUser):
 
 
         # collapase to a single sampled matrix
-        F = np.empty((num_functions, len(rewards) * len(rewards[0]), min_path_problems))
+        F = np.empty((num_functions, sum([len(env) for env in rewards]), min_path_problems))
         for f_idx in range(num_functions):
             f_list = [[fake_fs[f_idx](r_problem) for r_problem in r_env] for r_env in rewards]
             min_max = np.array([min([min([np.min(f1) for f1 in f2]) for f2 in f_list]),  \
@@ -92,16 +92,16 @@ class HumanChoiceUser2(HumanChoiceUser):
             k,b = self.get_k_b(min_max)
 
             # through environments
+            idx = 0
             for i in range(len(rewards)):
                 # through planning problems
                 for j in range(len(rewards[i])):
-                    idx = i * len(rewards[0]) + j
-
                     samp_idx = np.random.choice(len(rewards[i][j]), min_path_problems, replace=False)
                     f = fake_fs[f_idx](rewards[i][j])
                     f = f * k + b
 
                     F[f_idx, idx] = f[samp_idx]
+                    idx += 1
 
         pairs = np.array(list(itertools.combinations(range(F.shape[2]), 2)), dtype=int)
         diffs = F[:,:, pairs[:,0]] - F[:,:,pairs[:,1]]
-- 
2.43.0


From 440dfd93834f65ff6ae7ccf0593b0b73ef7f9de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:40 +0000
Subject: [PATCH 75/84] fix: experiment with pareto_pairs could not add prior
 points from its configuration

---
 experiments/experiment_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index ffdfcbc..e4048cc 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -680,7 +680,7 @@ def train_and_eval(config_filename,
     ###
 
     if config['add_model_prior']:
-        model.add_prior(bounds = config['prior_bounds'], num_pts=config['prior_pts'])
+        model.add_prior(bounds = np.array(config['prior_bounds']), num_pts=config['prior_pts'])
     if config['add_abs_point'] and model_desc != 'linear':
         x = np.array([config['abs_point_loc']])
         y = np.array([config['abs_point_value']])
-- 
2.43.0


From c0c6d7d840de610687560309660d5d4a503f1024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:42 +0000
Subject: [PATCH 76/84] fix: BayesInfoGain picked alternatives one by one with
 an answer model that ignored the best candidate (no information gain)

---
 src/lop/active_learning/BayesInfoGain.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index dded919..400a95d 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -52,13 +52,14 @@ class BayesInfoGain(ActiveLearner):
                 else:
                     # Set what p_q_B is
                     if self.p_q_B_method == 'probit':
-                        sub_probit = probit_mat[q_i, Q_subi]
-                        sub_probit_w = np.where(q_i == B_i, np.fmax(sub_probit, 1-sub_probit), sub_probit)
-                        p_q_B[i, B_i] = np.prod(sub_probit)
+                        p_win = np.fmax(sub_probit, 1-sub_probit)
                     elif self.p_q_B_method == '999': 
-                        p_q_B[i, B_i] = np.prod(np.where(q_i == B_i, 0.999, sub_probit))
+                        p_win = 0.999
                     elif self.p_q_B_method == '99':
-                        p_q_B[i, B_i] = np.prod(np.where(q_i == B_i, 0.99, sub_probit))
+                        p_win = 0.99
+                    # B wins its comparisons and the others lose theirs with B, as in select_pair
+                    p_lose = np.where(Q_subi == B_i, 1-p_win, sub_probit)
+                    p_q_B[i, B_i] = np.prod(np.where(q_i == B_i, p_win, p_lose))
 
         p_q = p_q / np.sum(p_q)
         p_q_B = p_q_B / np.sum(p_q_B, axis=0)
-- 
2.43.0


From b6bc197b3f16e61bd8778f627613c7bee07181f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:03 +0000
Subject: [PATCH 77/84] fix: BayesInfoGain's information gain was NaN when an
 answer has a probability of 0

---
 src/lop/active_learning/BayesInfoGain.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 400a95d..c61bb58 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -71,8 +71,10 @@ class BayesInfoGain(ActiveLearner):
 
 
         # calculate probability of B given Y and each q using Bayes rule
-        p_B_q = p_q_B * p_B / np.repeat(p_q[:,np.newaxis], N, axis=1)
-        p_B_q = p_B_q / np.repeat(np.sum(p_B_q, axis=1)[:, np.newaxis], N, axis=1) 
+        # answers that are impossible (have a probability of 0) tell nothing
+        p_B_q = p_q_B * p_B
+        p_B_q_sum = np.repeat(np.sum(p_B_q, axis=1)[:, np.newaxis], N, axis=1)
+        p_B_q = np.divide(p_B_q, p_B_q_sum, out=np.zeros_like(p_B_q), where=p_B_q_sum > 0)
 
         if debug:
             print('\tp_B_q = ' + str(p_B_q))
@@ -224,12 +226,10 @@ class BayesInfoGain(ActiveLearner):
                 print(p_q_B[:,:,i])
             
 
-        p_B_rep = np.repeat(np.repeat(p_B[np.newaxis,np.newaxis, :], N, axis=0), N, axis=1)
-        p_q_rep = np.repeat(p_q[:,:,np.newaxis], N, axis=2)
-        p_B_q = p_q_B * p_B_rep / p_q_rep
-
-
-        p_B_q = p_B_q / np.repeat(np.sum(p_B_q, axis=2)[:,:,np.newaxis], N, axis=2)
+        # answers that are impossible (have a probability of 0) tell nothing
+        p_B_q = p_q_B * p_B
+        p_B_q_sum = np.repeat(np.sum(p_B_q, axis=2)[:,:,np.newaxis], N, axis=2)
+        p_B_q = np.divide(p_B_q, p_B_q_sum, out=np.zeros_like(p_B_q), where=p_B_q_sum > 0)
 
         if debug:
             print('\tp_B_q:')
-- 
2.43.0


From 4843f2c8fc661259db841e513c7b55e0b53aff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:23 +0000
Subject: [PATCH 78/84] fix: AbsBayesInfo's information gain was NaN when a
 candidate can not be the best

---
 src/lop/active_learning/AbsBayesInfo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/AbsBayesInfo.py b/src/lop/active_learning/AbsBayesInfo.py
index 2e41065..9fc4008 100644
--- a/src/lop/active_learning/AbsBayesInfo.py
+++ b/src/lop/active_learning/AbsBayesInfo.py
@@ -67,6 +67,8 @@ class AbsBayesInfo(ActiveLearner):
         # [samples, f, B]
         p_q_f_B = self.p_q_f_B_unorm(q, aa, bb, ml) / integ_p_q_f_B
 
+        # candidates that can not be the best have no entropy to lose (0 log 0 = 0)
+        p_b = np.where(p_b > 0, p_b, 1)
         tmp = (p_q_f_B * p_b) / np.repeat(p_q_f[:,:,np.newaxis], p_q_f.shape[1], axis=2)
         result = p_q_f_B * np.log(tmp)
         result = np.where(np.isnan(result), 0, result)
@@ -125,7 +127,7 @@ class AbsBayesInfo(ActiveLearner):
         E_over_samples = np.sum(integ_r, axis=0) / self.M
 
         E_q_H_B = np.sum(-p_b * E_over_samples, axis=1)
-        H_B = np.sum(-p_b * np.log(p_b))
+        H_B = np.sum(-p_b * np.log(np.where(p_b > 0, p_b, 1)))
 
         info_gain = H_B - E_q_H_B
 
-- 
2.43.0


From fb68c916e99587c6133ae6b6a1d182d397dd4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:21 +0000
Subject: [PATCH 79/84] fix: AbsBayesInfo's information gain was infinite or
 inaccurate where the quadrature did not converge

---
 src/lop/active_learning/AbsBayesInfo.py | 52 ++++---------------------
 1 file changed, 7 insertions(+), 45 deletions(-)

diff --git a/src/lop/active_learning/AbsBayesInfo.py b/src/lop/active_learning/AbsBayesInfo.py
index 9fc4008..86eff17 100644
--- a/src/lop/active_learning/AbsBayesInfo.py
+++ b/src/lop/active_learning/AbsBayesInfo.py
@@ -4,7 +4,6 @@
 # A set of code to select a single active learning examples as an absloute query
 
 import numpy as np
-from scipy.integrate import quad_vec
 from scipy.stats import beta
 
 from lop.active_learning import ActiveLearner
@@ -52,47 +51,6 @@ class AbsBayesInfo(ActiveLearner):
         return p_B, all_Q
 
 
-    ## integrand
-    # The dq function that is to be integrated to solve the information gain
-    # @param q - the query q value to be integrated over
-    # @param args - the arguments passed to the integrand (p_b, all_f)
-    #
-    # @return
-    def integrand(self, q, p_b, all_f, aa, bb, ml, integ_p_q_f_B):
-        # [samples, f]
-        p_q_f = beta.pdf(q, aa, bb)
-
-        N = all_f.shape[1]
-
-        # [samples, f, B]
-        p_q_f_B = self.p_q_f_B_unorm(q, aa, bb, ml) / integ_p_q_f_B
-
-        # candidates that can not be the best have no entropy to lose (0 log 0 = 0)
-        p_b = np.where(p_b > 0, p_b, 1)
-        tmp = (p_q_f_B * p_b) / np.repeat(p_q_f[:,:,np.newaxis], p_q_f.shape[1], axis=2)
-        result = p_q_f_B * np.log(tmp)
-        result = np.where(np.isnan(result), 0, result)
-
-        return result
-
-
-    def p_q_f_B_unorm(self, q, aa, bb, ml):
-        ml_r = np.repeat(ml[:,np.newaxis, :], ml.shape[1], axis=1)
-        p_q_f = beta.pdf(q, aa, bb)
-        p_q_f_B = np.where(q > ml_r, np.repeat(p_q_f[:,:,np.newaxis], p_q_f.shape[1], axis=2), 0)
-        return p_q_f_B
-
-
-    # @jit(nopython=True)
-    # def p_q_f_B_unorm(self, q, aa, bb, ml, p_q_f=None):
-    #     if p_q_f is None:
-    #         # calculate p_q_f
-    #         pass
-
-    #     p_q_f_B = np.empty((p_q_f.shape[0], p_q_f.shape[1], p_q_f.shape[2]))
-        
-
-
     ## select_greedy
     # This function greedily selects the best single data point
     # Depending on the selection method, you are not forced to implement this function
@@ -120,9 +78,13 @@ class AbsBayesInfo(ActiveLearner):
         ml = self.model.probits[2].mean_link(all_f)
         aa, bb = self.model.probits[2].get_alpha_beta_ml(all_f, ml)
 
-        integ_p_q_f_B, err = quad_vec(self.p_q_f_B_unorm, 0,1, epsrel=0.01, workers=-1, limit=200, args=(aa,bb,ml))
-
-        integ_r, err = quad_vec(self.integrand, 0, 1, epsrel=0.01, workers=-1, limit=200, args=(p_b, all_f, aa, bb, ml, integ_p_q_f_B))
+        # p(q|f,B) is the part of p(q|f) above the mean rating of B, normalized by its probability.
+        # The integral over q of p(q|f,B) log(p(q|f,B) p(B) / p(q|f)) is then log p(B) minus
+        # the log of that probability [samples, f, B]
+        p_above = beta.sf(ml[:,np.newaxis,:], aa[:,:,np.newaxis], bb[:,:,np.newaxis])
+        p_above = np.maximum(p_above, np.finfo(float).tiny)
+        # candidates that can not be the best have no entropy to lose (0 log 0 = 0)
+        integ_r = np.log(np.where(p_b > 0, p_b, 1)) - np.log(p_above)
 
         E_over_samples = np.sum(integ_r, axis=0) / self.M
 
-- 
2.43.0


From e1770fcef16eb9ff7c7b98593c90602467c897c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:52 +0000
Subject: [PATCH 80/84] fix: the newton update's default static step length is
 defined

---
 src/lop/models/PreferenceModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 843e84d..565e975 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -58,6 +58,9 @@ class PreferenceModel(Model):
         self.X_train = None
 
         self.prior_idx = None
+
+        # step length of the "static" newton update
+        self.lambda_gp = 1.0
         self.n_loops = -1
 
 
-- 
2.43.0


From 6e66fc1099b60c5ea9364806d407a219d92a9fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:17 +0000
Subject: [PATCH 81/84] fix: the base kernel's covariance gradient has one
 matrix per parameter

---
 src/lop/kernels/KernelFunc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index bbeae1a..3a1b5b4 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -59,7 +59,7 @@ class KernelFunc:
     #        and k is the dimension of the samples
     # @param Y - samples (n2, k)
     #
-    # @return the covariance gradient tensor of the samples. [n1, n2, k]
+    # @return the covariance gradient matrices [n1, n2], one for each parameter
     def cov_gradient(self, X, Y):
         cov = np.empty((len(X), len(Y), len(self)))
 
@@ -67,7 +67,8 @@ class KernelFunc:
             for j,x2 in enumerate(Y):
                 cov_ij = self.gradient(x1, x2)
                 cov[i,j, :] = cov_ij
-        return cov
+        # one matrix for each parameter, in the same order as get_param
+        return tuple(np.moveaxis(cov, 2, 0))
 
     ## set_param
     # update the parameters
-- 
2.43.0


From 2f2ab7719736318cd2eb22e78fffe3f4d0015f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:20 +0000
Subject: [PATCH 82/84] fix: probits given to a preference model are used for
 their type of feedback

---
 src/lop/models/PreferenceModel.py     | 9 ++++++---
 src/lop/utilities/training_utility.py | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 565e975..a7b1189 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -49,10 +49,13 @@ class PreferenceModel(Model):
         self.probits = [PreferenceProbit(sigma = 0.5), OrdinalProbit(), AbsBoundProbit()]
         self.probit_idxs = {'relative_discrete': 0, 'ordinal': 1, 'abs': 2}
 
-        i = 1
         for key in other_probits:
-            self.probit_idxs[key] = i
-            i += 1
+            if key in self.probit_idxs:
+                # replaces the default probit of this type of feedback
+                self.probits[self.probit_idxs[key]] = other_probits[key]
+            else:
+                self.probit_idxs[key] = len(self.probits)
+                self.probits.append(other_probits[key])
 
         self.y_train = [None] * len(self.probit_idxs)
         self.X_train = None
diff --git a/src/lop/utilities/training_utility.py b/src/lop/utilities/training_utility.py
index 5217c7c..c216973 100644
--- a/src/lop/utilities/training_utility.py
+++ b/src/lop/utilities/training_utility.py
@@ -98,7 +98,7 @@ def get_y_with_idx(y, indicies):
     for i in range(len(indicies)):
         idx_mapping[indicies[i]] = i
 
-    y_new = [None, None, None]
+    y_new = [None] * len(y)
 
     if y[0] is not None:
         for pair in y[0]:
-- 
2.43.0


From 8d15783020a9de38bbf0826dd62a9295bfe71fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:50 +0000
Subject: [PATCH 83/84] fix: feedback of an unknown type is refused instead of
 dropping its labels

---
 src/lop/models/PreferenceModel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index a7b1189..746aec3 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -277,6 +277,8 @@ class PreferenceModel(Model):
                 idxs = np.append(self.y_train[self.probit_idxs[type]][1], idxs, axis=0)
 
             self.y_train[self.probit_idxs[type]] = (v, idxs)
+        else:
+            raise ValueError("Preference model can not add feedback of type: " + str(type))
 
         self.X_train = new_X_train
 
-- 
2.43.0


From b7d9818f17120348594951e296ed5f028f209250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:40 +0000
Subject: [PATCH 84/84] fix: a rating that is not a number is refused like
 every rating outside [0, 1]

---
 src/lop/models/PreferenceModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 746aec3..ec04f06 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -267,7 +267,7 @@ class PreferenceModel(Model):
                 print('abs type received unknown type for y')
                 return
 
-            if (v < 0).any() or (v > 1.0).any():
+            if not ((v >= 0) & (v <= 1.0)).all():
                 raise ValueError("Absloute bounded input must be between 0 and 1. v = " + str(v))
             v = np.where(v < 0.001, 0.001, v)
             v = np.where(v > 0.999, 0.999, v)            
-- 
2.43.0

