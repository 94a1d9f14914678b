From 2e8a396567445372fed2b56d34c630f95b88e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 01/21] fix: refuse unsupported methods in NumPy and JAX 3D
 scattering

The PyTorch and TensorFlow frontends raise ValueError for a method other
than 'integral'; the NumPy frontend (and JAX, which inherits from it)
silently ignored the argument.
---
 kymatio/scattering3d/frontend/numpy_frontend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kymatio/scattering3d/frontend/numpy_frontend.py b/kymatio/scattering3d/frontend/numpy_frontend.py
index 9517153..2c78bda 100644
--- a/kymatio/scattering3d/frontend/numpy_frontend.py
+++ b/kymatio/scattering3d/frontend/numpy_frontend.py
@@ -36,6 +36,11 @@ class HarmonicScatteringNumPy3D(ScatteringNumPy, ScatteringBase3D):
         signal_shape = input_array.shape[-3:]
 
         input_array = input_array.reshape((-1,) + signal_shape)
+
+        methods = ['integral']
+        if not self.method in methods:
+            raise ValueError('method must be in {}'.format(methods))
+
         self.averaging = lambda x: self.backend.compute_integrals(x, self.integral_powers)
 
         S = scattering3d(input_array, filters=self.filters, rotation_covariant=self.rotation_covariant, L=self.L,
-- 
2.43.0


From 8ef6b17cdf981251b9f738ff1f2f56767a5b66d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 02/21] fix: JTFS time averaging with a stride below the
 wavelet scale

With stride < 2**j2 the second-order wavelet modulus is at resolution
min(j2, log2_stride), not j2; time_averaging crashed with a shape mismatch
(or an IndexError for small T).
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 9a3c3a6..3d402f1 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -172,7 +172,8 @@ def time_scattering_widthfirst(U_0, backend, filters, log2_stride, average_local
             k1 = min(j1, log2_stride) if average_local else j1
 
             if j2 > j1:
-                k2 = min(j2-k1, log2_stride) if average_local else (j2-k1)
+                sub2_adj = min(j2, log2_stride) if average_local else j2
+                k2 = max(sub2_adj - k1, 0)
                 U_2_c = backend.cdgmm(U_1_hat['coef'], psi2[n2]['levels'][k1])
                 U_2_hat = backend.subsample_fourier(U_2_c, 2 ** k2)
                 U_2_c = backend.ifft(U_2_hat)
@@ -306,7 +307,7 @@ def time_averaging(U_2, backend, phi_f, log2_stride):
     U_2{n2,n_fr}(t, n1) = |Y_2_fr{n2,n_fr}|(t, n1)
     """
     log2_T = phi_f['j']
-    k_in = U_2['j'][-1]
+    k_in = min(U_2['j'][-1], log2_stride)
     k_J = log2_stride - k_in
     U_hat = backend.rfft(U_2['coef'])
     S_c = backend.cdgmm(U_hat, phi_f['levels'][k_in])
-- 
2.43.0


From ec8628af54b0c4cefe7cde23cf73d4010f02b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 03/21] fix: JTFS frequential averaging with a stride below the
 wavelet scale

With stride_fr < 2**j_fr the modulus is at resolution
min(j_fr, log2_stride_fr); frequency_averaging used log2_F instead and
crashed with a shape mismatch.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 3d402f1..64494c4 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -360,7 +360,7 @@ def frequency_averaging(U_2, backend, phi_fr_f, log2_stride_fr, average_fr):
             S_2_T = backend.average_global(U_2_T)
             n1_stride = U_2['n1_max']
         elif average_fr == 'local':
-            k_in = min(U_2['j_fr'][-1], log2_F)
+            k_in = min(U_2['j_fr'][-1], log2_stride_fr)
             k_J = log2_stride_fr - k_in
             U_hat = backend.rfft(U_2_T)
             S_c = backend.cdgmm(U_hat, phi_fr_f['levels'][k_in])
-- 
2.43.0


From 5d5c629095705e150d11e5009501e1655aebfc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 04/21] fix: JTFS frequential stride of paths that are not
 averaged in frequency

When a frequential filter is subsampled by less than its own scale
(stride_fr or F smaller than 2**j_fr), the path was labelled with a stride of
2**j_fr and most of its rows were dropped at unpadding.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 64494c4..d8cc7ea 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -272,7 +272,7 @@ def frequency_scattering(X, backend, filters_fr, log2_stride_fr,
         # as (X['n'][1:] + (n_fr,)), i.e., n=(n_fr,) is not spinned
         # and n=(n2, n_fr) if spinned. This 'n' tuple is unique.
         yield {**X, 'coef': Y_fr, 'n': (X['n'][1:] + (n_fr,)),
-            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**j_fr),
+            'j_fr': (j_fr,), 'n_fr': (n_fr,), 'n1_stride': (2**k_fr),
             'spin': spin}
 
 
-- 
2.43.0


From 016e7a6a84a72212298c78447dc0b49d710ec2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 05/21] fix: JTFS global frequential averaging of the spin-0
 paths

With F='global' the paths with spin 0 were left unaveraged along
log-frequency, so that format='joint', out_type='array' could not stack them
with the others.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index d8cc7ea..4a96b28 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -427,9 +427,10 @@ def jtfs_average_and_format(U_gen, backend, phi_f, log2_stride, average,
             # Case 2b.
             path = time_averaging(path, backend, phi_f, log2_stride)
 
-        # Frequential averaging. NB. if spin==0, U_gen is already averaged.
-        # Hence, we only average if spin!=0, i.e. psi_{n_fr} in path.
-        if average_fr and not path['spin'] == 0:
+        # Frequential averaging. NB. if spin==0, U_gen is already averaged
+        # locally. Hence, unless averaging is global, we only average if
+        # spin!=0, i.e. psi_{n_fr} in path.
+        if average_fr == 'global' or (average_fr and not path['spin'] == 0):
             path = frequency_averaging(path, backend,
                 phi_fr_f, oversampling_fr, average_fr)
 
-- 
2.43.0


From 04e43b22d3fb5b1074518b6b69693e925d85e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:03 +0000
Subject: [PATCH 06/21] fix: JTFS metadata in the order of the returned
 coefficients

meta() sorted the paths while scattering() returns them in the order of
generation, so that rows of format='time' arrays and lists did not match
their metadata.
---
 kymatio/scattering1d/frontend/base_frontend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index 2e7015e..ebd56cd 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -656,7 +656,8 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             self.phi_f, self.log2_stride, self.average,
             self.filters_fr[0], self.log2_stride_fr, self.average_fr,
             self.out_type, self.format)
-        S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
+        # NB. same order as in scattering()
+        S = list(S_gen)
         meta = dict(key=[path['n'] for path in S], n=[], n_fr=[], order=[])
         for path in S:
             if len(path['n']) == 0:
-- 
2.43.0


From a1558ee2e345504ae8077d89c8247d9ea6ffaafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 07/21] fix: JTFS metadata keys of joint arrays skip the zeroth
 order

With format='joint' and out_type='array' the zeroth order is not returned;
meta()['key'] listed it nevertheless, unlike all other fields.
---
 kymatio/scattering1d/frontend/base_frontend.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index ebd56cd..ca0dfba 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -658,15 +658,16 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             self.out_type, self.format)
         # NB. same order as in scattering()
         S = list(S_gen)
+        if self.format == 'joint' and self.out_type == 'array':
+            # Skip zeroth order
+            S = S[1:]
         meta = dict(key=[path['n'] for path in S], n=[], n_fr=[], order=[])
         for path in S:
             if len(path['n']) == 0:
-                # If format='joint' and out_type='array' skip zeroth order
-                if not (self.format == 'joint' and self.out_type == 'array'):
-                    # Zeroth order: no n1, no n_fr, no n2
-                    meta['n'].append([np.nan, np.nan])
-                    meta['n_fr'].append(np.nan)
-                    meta['order'].append(0)
+                # Zeroth order: no n1, no n_fr, no n2
+                meta['n'].append([np.nan, np.nan])
+                meta['n_fr'].append(np.nan)
+                meta['order'].append(0)
             else:
                 if len(path['n']) == 1:
                     # First order and format='joint': n=(n_fr,)
-- 
2.43.0


From 16a0a34bf233875eafeb8812956682f7143c0c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:34 +0000
Subject: [PATCH 08/21] fix: Scattering1D.meta() with a small averaging length

meta() traced the paths without averaging, which asks for low-pass and
wavelet resolutions that do not exist when T is small: IndexError for
instance with J=3, shape=33, Q=(2, 2), T=1.
---
 kymatio/scattering1d/frontend/base_frontend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index ca0dfba..f89f61c 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -187,7 +187,8 @@ class ScatteringBase1D(ScatteringBase):
         backend = self._DryBackend()
         filters = [self.phi_f, self.psi1_f, self.psi2_f][:(1+self.max_order)]
         S_gen = scattering1d(
-            None, backend, filters, self.log2_stride, average_local=False)
+            None, backend, filters, self.log2_stride,
+            average_local=(self.average=='local'))
         S = sorted(list(S_gen), key=lambda path: (len(path['n']), path['n']))
         meta = dict(order=np.array([len(path['n']) for path in S]))
         meta['key'] = [path['n'] for path in S]
-- 
2.43.0


From 6aad7c996b4d5a5ac3b30c5a4c100741b88dfc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:37 +0000
Subject: [PATCH 09/21] fix: oversampling compatible with the stride it stands
 for

oversampling=k sets stride = 2**(log2_T - k), but an explicitly passed
stride was compared with 2**(log2_T - k - 1): the equal stride was refused
and half of it was accepted and then ignored.
---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index f89f61c..ac87872 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -74,7 +74,7 @@ class ScatteringBase1D(ScatteringBase):
                 "Pass stride = 2**(J-oversampling) or "
                 "stride = 2**(log2(T)-oversampling) "
                 "to retain current behavior.", DeprecationWarning)
-            if not self._stride in [None, 2**(self.log2_T-self._oversampling-1)]:
+            if not self._stride in [None, 2**(self.log2_T-self._oversampling)]:
                 raise ValueError("oversampling={} and stride={}"
                     "are incompatible".format(self._oversampling, self._stride))
             self._stride = 2 ** (self.log2_T-self._oversampling)
-- 
2.43.0


From 3088548a054a31cf4a86025322a3d9ef3117fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 10/21] fix: pre_pad=True in the TensorFlow 2D frontend

The padding was replaced by a cast to complex64, which rfft refuses: every
call raised a TypeError.
---
 kymatio/scattering2d/frontend/tensorflow_frontend.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kymatio/scattering2d/frontend/tensorflow_frontend.py b/kymatio/scattering2d/frontend/tensorflow_frontend.py
index b8a09ae..16c11df 100644
--- a/kymatio/scattering2d/frontend/tensorflow_frontend.py
+++ b/kymatio/scattering2d/frontend/tensorflow_frontend.py
@@ -13,10 +13,6 @@ class ScatteringTensorFlow2D(ScatteringTensorFlow, ScatteringBase2D):
         ScatteringBase2D.build(self)
         ScatteringBase2D.create_filters(self)
 
-        if pre_pad:
-            # Need to cast to complex in TF
-            self.pad = lambda x: tf.cast(x, tf.complex64)
-
 
     def scattering(self, input):
         with tf.name_scope('scattering') as scope:
-- 
2.43.0


From e29a243ebf128aa626b2573a77ea8b25ae2ab677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 11/21] fix: NumPy input check raises TypeError instead of
 NameError

input_checks referred to an undefined name for inputs that are not arrays.
---
 kymatio/backend/numpy_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/backend/numpy_backend.py b/kymatio/backend/numpy_backend.py
index 13e01bd..452439c 100644
--- a/kymatio/backend/numpy_backend.py
+++ b/kymatio/backend/numpy_backend.py
@@ -16,7 +16,7 @@ class NumpyBackend:
         #want to make sure that we have either a numpy or numpy-like arrays.
         #since each numpy-like implements its own distinct ndarray, we need to
         #check if numpy
-        if (not isinstance(x, numpy.ndarray)) and (not isinstance(x, _np.ndarray)):
+        if not isinstance(x, numpy.ndarray):
             raise TypeError(f'The input should be a numpy array, got type {type(x)}')
 
     @classmethod
-- 
2.43.0


From ece9cfa2cc6c864dc5b63c7547aed2ad66bbc219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 12/21] fix: import warn for the deprecated M and N of 2D
 scattering

Reading S.M or S.N raised a NameError.
---
 kymatio/scattering2d/frontend/base_frontend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kymatio/scattering2d/frontend/base_frontend.py b/kymatio/scattering2d/frontend/base_frontend.py
index 31d4f74..fade591 100644
--- a/kymatio/scattering2d/frontend/base_frontend.py
+++ b/kymatio/scattering2d/frontend/base_frontend.py
@@ -1,3 +1,5 @@
+from warnings import warn
+
 from ...frontend.base_frontend import ScatteringBase
 
 from ..filter_bank import filter_bank
-- 
2.43.0


From 6cc59f09fafb37efeed732ef0e2df242a6b9c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 13/21] fix: Keras 1D layer arguments, configuration and
 declared output shape

max_order and oversampling were ignored, get_config() raised an
AttributeError and omitted T, and compute_output_shape() was wrong whenever
T differs from 2**J or the input has more than two axes.
---
 .../scattering1d/frontend/keras_frontend.py   | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/kymatio/scattering1d/frontend/keras_frontend.py b/kymatio/scattering1d/frontend/keras_frontend.py
index c7ac5a6..0cea7d9 100644
--- a/kymatio/scattering1d/frontend/keras_frontend.py
+++ b/kymatio/scattering1d/frontend/keras_frontend.py
@@ -12,28 +12,32 @@ class ScatteringKeras1D(ScatteringKeras, ScatteringBase1D):
         self.J = J
         self._Q = Q
         self._T = T
-        self._max_order = 2
-        self._oversampling = 0
+        self.max_order = max_order
+        self._oversampling = oversampling
         self.out_type = 'array'
         self.backend = None
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-1:])
         self.S = ScatteringTensorFlow1D(J=self.J, shape=shape,
-            Q=self._Q, T=self._T, max_order=self._max_order,
+            Q=self._Q, T=self._T, max_order=self.max_order,
             oversampling=self._oversampling)
         ScatteringKeras.build(self, input_shape)
 
     def compute_output_shape(self, input_shape):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         nc = self.S.output_size()
-        k0 = max(self.J - self._oversampling, 0)
-        ln = self.S.ind_end[k0] - self.S.ind_start[k0]
-        output_shape = [input_shape[0], nc, ln]
+        if self.S.average == 'global':
+            ln = 1
+        else:
+            k0 = self.S.log2_stride
+            ln = self.S.ind_end[k0] - self.S.ind_start[k0]
+        output_shape = input_shape[:-1] + [nc, ln]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-        keys = ["J", "Q", "max_order", "oversampling"]
-        return {key: getattr(self, key) for key in keys}
+        return {"J": self.J, "Q": self._Q, "T": self._T,
+                "max_order": self.max_order,
+                "oversampling": self._oversampling}
 
 ScatteringKeras1D._document()
-- 
2.43.0


From 7b32d245386125e29508da23d5769f349f2d02f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 14/21] fix: Keras 2D layer with pre_pad=True, and its declared
 output shape

With pre_pad=True the layer declared its (already padded) input size as the
unpadded size, so that every call failed; compute_output_shape() ignored
max_order and the axes between the batch and the image.
---
 kymatio/scattering2d/frontend/keras_frontend.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/kymatio/scattering2d/frontend/keras_frontend.py b/kymatio/scattering2d/frontend/keras_frontend.py
index 75661cd..ee80e97 100644
--- a/kymatio/scattering2d/frontend/keras_frontend.py
+++ b/kymatio/scattering2d/frontend/keras_frontend.py
@@ -14,6 +14,9 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
 
     def build(self, input_shape):
         shape = tuple(tensor_shape.TensorShape(input_shape).as_list()[-2:])
+        if self.pre_pad:
+            # The input is padded already: find a size which pads to it.
+            shape = tuple(m - 2 * 2 ** self.J for m in shape)
         self.S = ScatteringTensorFlow2D(J=self.J, shape=shape,
                                         L=self.L, max_order=self.max_order,
                                         pre_pad=self.pre_pad)
@@ -25,8 +28,12 @@ class ScatteringKeras2D(ScatteringKeras, ScatteringBase2D):
         input_shape = tensor_shape.TensorShape(input_shape).as_list()
         m0 = input_shape[-2] // 2 ** self.J
         m1 = input_shape[-1] // 2 ** self.J
-        nc = (self.L ** 2) * self.J * (self.J - 1) // 2 + self.L * self.J + 1
-        output_shape = [input_shape[0], nc, m0, m1]
+        if self.pre_pad:
+            m0, m1 = m0 - 2, m1 - 2
+        nc = self.L * self.J + 1
+        if self.max_order > 1:
+            nc += (self.L ** 2) * self.J * (self.J - 1) // 2
+        output_shape = input_shape[:-2] + [nc, m0, m1]
         return tensor_shape.TensorShape(output_shape)
 
     def get_config(self):
-- 
2.43.0


From cb4d2a714dda1b432715c3a2495da96f6a80515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:44 +0000
Subject: [PATCH 15/21] fix: JTFS order of the paths in format='time'

First-order paths were labelled with order 0 and second-order paths with
order 1, in disagreement with meta() and with format='joint'.
---
 kymatio/scattering1d/core/timefrequency_scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 4a96b28..19d000a 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -381,7 +381,7 @@ def time_formatting(path, backend):
     else:
         coef_list = backend.split_frequency_axis(path["coef"])
     for i, n1 in enumerate(range(0, path["n1_max"], path["n1_stride"])):
-        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])-1}
+        split_path = {**path, "coef": coef_list[i], "order": len(path["n"])}
         # If not spinned, X['n']=S1['n']=(n_fr,) is a 1-tuple.
         # If spinned, X['n']=Y2['n']=(n2,n_fr) is a 2-tuple.
         # In either case, we prepend n1 and define the new 'n'
-- 
2.43.0


From 96d1f51580dd982bbdcbec4b64b1bb895c11d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 16/21] fix: JTFS unpadding of first-order paths without time
 averaging

With T=0 and format='time' the first-order coefficients, sampled at 2**log2_T,
were cropped with the indices of the finest resolution: they came out empty.
---
 kymatio/scattering1d/frontend/base_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index ac87872..e008807 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -618,7 +618,7 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
             #     3a. at order 1, unpad Y_1_fr at resolution log2_T
             #     3b. at order 2, unpad Y_2_fr at resolution j2
             if not self.average == 'global':
-                if not self.average and len(path['n']) > 1:
+                if not self.average and path['order'] > 1:
                     # Case 3b.
                     res = max(path['j'][-1], 0)
                 else:
-- 
2.43.0


From 42e0acc4f67f554cdf0f1b18cbcdf766f8293a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:33 +0000
Subject: [PATCH 17/21] fix: JTFS with an averaging F wider than 2**J_fr

---
 kymatio/scattering1d/core/timefrequency_scattering.py | 8 +++++---
 kymatio/scattering1d/frontend/base_frontend.py        | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering1d/core/timefrequency_scattering.py b/kymatio/scattering1d/core/timefrequency_scattering.py
index 19d000a..4d18555 100644
--- a/kymatio/scattering1d/core/timefrequency_scattering.py
+++ b/kymatio/scattering1d/core/timefrequency_scattering.py
@@ -428,9 +428,11 @@ def jtfs_average_and_format(U_gen, backend, phi_f, log2_stride, average,
             path = time_averaging(path, backend, phi_f, log2_stride)
 
         # Frequential averaging. NB. if spin==0, U_gen is already averaged
-        # locally. Hence, unless averaging is global, we only average if
-        # spin!=0, i.e. psi_{n_fr} in path.
-        if average_fr == 'global' or (average_fr and not path['spin'] == 0):
+        # locally at the scale 2**J_fr. Hence, unless averaging is global or
+        # F is larger than that, we only average if spin!=0, i.e. psi_{n_fr}
+        # in path.
+        if average_fr == 'global' or (average_fr and not (
+                path['spin'] == 0 and phi_fr_f['j'] <= path['j_fr'][-1])):
             path = frequency_averaging(path, backend,
                 phi_fr_f, oversampling_fr, average_fr)
 
diff --git a/kymatio/scattering1d/frontend/base_frontend.py b/kymatio/scattering1d/frontend/base_frontend.py
index e008807..34c4451 100644
--- a/kymatio/scattering1d/frontend/base_frontend.py
+++ b/kymatio/scattering1d/frontend/base_frontend.py
@@ -562,10 +562,11 @@ class TimeFrequencyScatteringBase(ScatteringBase1D):
         # (1) greater than number of first-order coefficients, N_input_fr,
         #     by a margin of at least min_to_pad_fr
         # (2) a multiple of all subsampling factors of frequential scattering:
-        #     2**1, 2**2, etc. up to 2**K_fr = (2**J_fr / 2**oversampling_fr)
+        #     2**1, 2**2, etc. up to 2**K_fr = (2**J_fr / 2**oversampling_fr),
+        #     and of the stride of frequential averaging, 2**log2_F
         N_input_fr = (self.J+1) * self.Q[0]
-        K_fr = max(self.J_fr - self.oversampling_fr, 0)
-        N_padded_fr_subsampled = (N_input_fr + min_to_pad_fr) // (2 ** K_fr)
+        K_fr = max(self.J_fr - self.oversampling_fr, self.log2_F, 0)
+        N_padded_fr_subsampled = -(-(N_input_fr + min_to_pad_fr) // (2 ** K_fr))
         self._N_padded_fr = N_padded_fr_subsampled * (2 ** K_fr)
 
     def create_filters(self):
-- 
2.43.0


From 4a539af592537dab2f8f2d93becd67aa3f09fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:20 +0000
Subject: [PATCH 18/21] fix: gradient of the PyTorch 3D rotation modulus at
 zero

---
 kymatio/scattering3d/backend/torch_backend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kymatio/scattering3d/backend/torch_backend.py b/kymatio/scattering3d/backend/torch_backend.py
index 9410818..5081ac7 100644
--- a/kymatio/scattering3d/backend/torch_backend.py
+++ b/kymatio/scattering3d/backend/torch_backend.py
@@ -4,7 +4,7 @@ import warnings
 from collections import namedtuple
 from packaging import version
 
-from ...backend.torch_backend import TorchBackend
+from ...backend.torch_backend import ModulusStable, TorchBackend
 
 
 if version.parse(torch.__version__) >= version.parse('1.8'):
@@ -117,11 +117,11 @@ class TorchBackend3D(TorchBackend):
                 $\\sqrt{\\sum_m (\\text{input}_\\text{array} \\star \\psi_{j,l,m})^2)}$
                 which is covariant to 3D translations and rotations.
         """
+        # ModulusStable has a zero gradient, and not an undefined one, at zero.
+        modulus = ModulusStable.apply(x)[..., None]
         if module is None:
-            module = (x ** 2).sum(-1, keepdim=True)
-        else:
-            module = module ** 2 + (x ** 2).sum(-1, keepdim=True)
-        return torch.sqrt(module)
+            return modulus
+        return ModulusStable.apply(torch.cat((module, modulus), -1))[..., None]
 
     @staticmethod
     def compute_integrals(input_array, integral_powers):
-- 
2.43.0


From d0632a408672136e3ab372fc80eac93fb252a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 19/21] fix: scikit-learn Scattering2D with pre_pad=True

---
 kymatio/frontend/sklearn_frontend.py              | 6 +++++-
 kymatio/scattering2d/frontend/sklearn_frontend.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 0fa33c7..55130e5 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -6,9 +6,13 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
         # No fitting necessary.
         return self
 
+    @property
+    def _sample_shape(self):
+        return self.shape
+
     def predict(self, x):
         batch_shape = x.shape[:-1]
-        x = x.reshape((-1,) + self.shape)
+        x = x.reshape((-1,) + self._sample_shape)
         Sx = self.scattering(x)
         Sx = Sx.reshape(batch_shape + (-1,))
 
diff --git a/kymatio/scattering2d/frontend/sklearn_frontend.py b/kymatio/scattering2d/frontend/sklearn_frontend.py
index 93b63ee..17c3b02 100644
--- a/kymatio/scattering2d/frontend/sklearn_frontend.py
+++ b/kymatio/scattering2d/frontend/sklearn_frontend.py
@@ -5,7 +5,11 @@ from ...numpy import Scattering2D as ScatteringNumPy2D
 # NOTE: Order in base classes matters here, since we want the sklearn-specific
 # documentation parameters to take precedence over NP.
 class ScatteringTransformer2D(ScatteringTransformerMixin, ScatteringNumPy2D):
-    pass
+    @property
+    def _sample_shape(self):
+        if self.pre_pad:
+            return (self._M_padded, self._N_padded)
+        return self.shape
 
 
 ScatteringTransformer2D._document()
-- 
2.43.0


From 3ad567a45e23d2878e8c3be16bd3b70e6df88632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:21 +0000
Subject: [PATCH 20/21] fix: centre 3D filters at the origin for odd sizes

---
 kymatio/scattering3d/filter_bank.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kymatio/scattering3d/filter_bank.py b/kymatio/scattering3d/filter_bank.py
index 4994f5e..f6253ab 100644
--- a/kymatio/scattering3d/filter_bank.py
+++ b/kymatio/scattering3d/filter_bank.py
@@ -90,9 +90,9 @@ def gaussian_3d(M, N, O, sigma, fourier=True):
             that the origin is at the point [0, 0, 0]
     """
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):-(M // 2) + M,
+                 -(N // 2):-(N // 2) + N,
+                 -(O // 2):-(O // 2) + O].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
     if fourier:
@@ -137,9 +137,9 @@ def solid_harmonic_3d(M, N, O, sigma, l, fourier=True):
     """
     solid_harm = np.zeros((2*l+1, M, N, O), np.complex64)
     grid = np.fft.ifftshift(
-        np.mgrid[-M // 2:-M // 2 + M,
-                 -N // 2:-N // 2 + N,
-                 -O // 2:-O // 2 + O].astype('float32'),
+        np.mgrid[-(M // 2):-(M // 2) + M,
+                 -(N // 2):-(N // 2) + N,
+                 -(O // 2):-(O // 2) + O].astype('float32'),
         axes=(1,2,3))
     _sigma = sigma
 
-- 
2.43.0


From 471234a8d64a5f42e9c0ba2a04288ec32f8b5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:27 +0000
Subject: [PATCH 21/21] fix: cloning a scikit-learn transformer changed its
 averaging (T, F='global' or 0)

---
 kymatio/frontend/sklearn_frontend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kymatio/frontend/sklearn_frontend.py b/kymatio/frontend/sklearn_frontend.py
index 55130e5..044a65c 100644
--- a/kymatio/frontend/sklearn_frontend.py
+++ b/kymatio/frontend/sklearn_frontend.py
@@ -6,6 +6,13 @@ class ScatteringTransformerMixin(BaseEstimator, TransformerMixin):
         # No fitting necessary.
         return self
 
+    def get_params(self, deep=True):
+        # Some parameters are parsed at construction, e.g. T, which is equal to
+        # 2**J if T='global'. Report these as they were passed, so that cloning
+        # the transformer does not change it.
+        params = super().get_params(deep=deep)
+        return {key: getattr(self, '_' + key, params[key]) for key in params}
+
     @property
     def _sample_shape(self):
         return self.shape
-- 
2.43.0

