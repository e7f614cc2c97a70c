From 576d0920c84398f6f5af345dcb8b64a045762ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 1/8] fix: spin-lowering normalisation of the vectorised and
 JAX filters

Both reshaped 2|spin| factors to 2|spin|+1 columns, so every spin0 != 0 raised,
and multiplied el by the offsets instead of adding them.
---
 s2wav/filters.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index fe8c457..ccf4ad1 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -660,9 +660,9 @@ def _spin_normalization_vectorised(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = np.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return np.sqrt(np.prod(factor, axis=1) ** (np.sign(spin)))
+    factor = el.reshape(len(el), 1) + np.arange(-abs(spin) + 1, abs(spin) + 1)
+    factor = np.prod(np.where(factor > 0, factor, 1.0), axis=1)
+    return np.sqrt(factor) if spin > 0 else np.sqrt(1.0 / factor)
 
 
 @partial(jit, static_argnums=(0, 1))
@@ -724,6 +724,6 @@ def _spin_normalization_jax(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = jnp.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return jnp.sqrt(jnp.prod(factor, axis=1) ** (jnp.sign(spin)))
+    factor = el.reshape(len(el), 1) + jnp.arange(-abs(spin) + 1, abs(spin) + 1)
+    factor = jnp.prod(jnp.where(factor > 0, factor, 1.0), axis=1)
+    return jnp.sqrt(factor) if spin > 0 else jnp.sqrt(1.0 / factor)
-- 
2.43.0


From 5cf310739092e4a2fb6bc29f27ed924f95b4106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 2/8] fix: vectorised and JAX filters return zero below scale
 J_min

The scaling function already covers those scales; the looped generator
leaves them at zero and the others did not.
---
 s2wav/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index ccf4ad1..ef333de 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -189,6 +189,7 @@ def filters_axisym_vectorised(
     k = k_lam(L, lam)
     diff = (np.roll(k, -1, axis=0) - k)[:-1]
     diff[diff < 0] = 0
+    diff[:J_min] = 0
     return np.sqrt(diff), np.sqrt(k[J_min])
 
 
@@ -287,6 +288,7 @@ def filters_axisym_jax(
     k = k_lam_jax(L, lam)
     diff = (jnp.roll(k, -1, axis=0) - k)[:-1]
     diff = jnp.where(diff < 0, jnp.zeros((J + 1, L)), diff)
+    diff = diff.at[:J_min].set(0)
     return jnp.sqrt(diff), jnp.sqrt(k[J_min])
 
 
-- 
2.43.0


From 5eade536dfbfd35683be2a8c0b05e0d449bd380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 3/8] fix: tiling integrand vanishes outside its compact
 support

For e.g. lam = 5, 7, 10 a quadrature node rounds to just outside of the
support, where the exponential overflows and every filter becomes NaN.
---
 s2wav/filters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index ef333de..d3098c3 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -373,6 +373,10 @@ def tiling_integrand(t: float, lam: float = 2.0) -> float:
     """
     s_arg = (t - (1.0 / lam)) * (2.0 * lam / (lam - 1.0)) - 1.0
 
+    # Compactly supported: quadrature nodes may round to just outside of (-1, 1).
+    if abs(s_arg) >= 1.0:
+        return 0.0
+
     integrand = np.exp(-2.0 / (1.0 - s_arg**2.0)) / t
 
     return integrand
-- 
2.43.0


From 316b9b49b7e4dd6a8290299f7d5ca02955d43f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:29 +0000
Subject: [PATCH 4/8] fix: precompute flm_to_analysis selects the right kernel
 when J_max < J

Only the topmost scale shares the kernel of the scale below it; with a
smaller J_max the kernel of scale J_max - 1 was applied to scale J_max.
---
 s2wav/transforms/wavelet_precompute.py       | 2 +-
 s2wav/transforms/wavelet_precompute_torch.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index a9d1487..a1975f7 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -303,7 +303,7 @@ def flm_to_analysis(
                 )
             )
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         shift = shift if _precomp_shift else 0
 
         f_wav.append(
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 9abeac0..2eb1a9d 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -283,7 +283,7 @@ def flm_to_analysis(
             flm[L0j:Lj, L - Lj : L - 1 + Lj],
             wav_lm[j, L0j:Lj, L - Nj : L - 1 + Nj : 2],
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         f_wav[j - J_min] = wigner.inverse_transform_torch(
             f_wav_lmn[j - J_min],
             precomps[2][j - J_min + shift],
-- 
2.43.0


From a5bed13f594c54c0957e5da57e91381ee7cb50cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:52 +0000
Subject: [PATCH 5/8] fix: full precomputes can be generated for spin != 0

The precompute transforms take a spin but the kernels were always those of
spin 0, so spin transforms returned wrong coefficients without an error.
---
 s2wav/transforms/construct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/construct.py b/s2wav/transforms/construct.py
index 42a2497..e8318e2 100644
--- a/s2wav/transforms/construct.py
+++ b/s2wav/transforms/construct.py
@@ -21,6 +21,7 @@ def generate_full_precomputes(
     reality: bool = False,
     nospherical: bool = False,
     using_torch: bool = False,
+    spin: int = 0,
 ) -> List[jnp.ndarray]:
     r"""Generates a list of precompute arrays associated with the underlying Wigner
     transforms.
@@ -51,6 +52,8 @@ def generate_full_precomputes(
 
         using_torch (bool, optional): Desired frontend functionality. Defaults to False.
 
+        spin (int, optional): Spin (integer) of the transform the kernels are for. Defaults to 0.
+
     Returns:
         List[jnp.ndarray]: Precomputed recursion arrays for underlying Wigner transforms.
     """
@@ -66,10 +69,10 @@ def generate_full_precomputes(
     if nospherical:
         return [], [], precomps
     precompute_scaling = spin_spherical_kernel_jax(
-        Ls, 0, reality, sampling, nside, forward
+        Ls, spin, reality, sampling, nside, forward
     )
     precompute_full = spin_spherical_kernel_jax(
-        L, 0, reality, sampling, nside, not forward
+        L, spin, reality, sampling, nside, not forward
     )
 
     if using_torch:
-- 
2.43.0


From 1f12f528e8d4a8a327df582243236d589c36f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:54 +0000
Subject: [PATCH 6/8] fix: scaling coefficients of bandlimit one have the shape
 of the sampling

For J_min = 0 the MWSS and DH grids have more than one sample; the transforms
returned a single one, which the C backend then cannot synthesise from.
---
 s2wav/transforms/wavelet.py                  | 5 ++++-
 s2wav/transforms/wavelet_c.py                | 5 ++++-
 s2wav/transforms/wavelet_precompute.py       | 5 ++++-
 s2wav/transforms/wavelet_precompute_torch.py | 6 +++++-
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index 9410e82..c711eb0 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -204,7 +204,10 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        f_scal = temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi))
+        f_scal = f_scal * jnp.ones(
+            samples.f_scal(L, J_min, lam, sampling, nside, True)
+        )
     else:
         f_scal = s2fft.inverse_jax(temp, Ls, spin, nside, sampling, reality)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index ad5238d..0fb53be 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -147,7 +147,10 @@ def analysis(
         )
 
     if Ls == 1:
-        f_scal = flm_scal * jnp.sqrt(1 / (4 * jnp.pi))
+        f_scal = flm_scal[0, 0] * jnp.sqrt(1 / (4 * jnp.pi))
+        f_scal = f_scal * jnp.ones(
+            samples.f_scal(L, J_min, lam, sampling, None, True)
+        )
     else:
         f_scal = ssht_inverse(flm_scal, Ls, spin, reality, ssht_sampling)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index a1975f7..7909544 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -212,7 +212,10 @@ def analysis(
     temp = jnp.einsum("lm,l->lm", flm[:Ls, L - Ls : L - 1 + Ls], phi, optimize=True)
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        f_scal = temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi))
+        f_scal = f_scal * jnp.ones(
+            samples.f_scal(L, J_min, lam, sampling, nside, True)
+        )
     else:
         f_scal = spherical.inverse_transform_jax(
             temp, precomps[1], Ls, sampling, reality, spin, nside
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 2eb1a9d..3375351 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -201,9 +201,13 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * torch.sqrt(
+        f_scal = temp[0, 0] * torch.sqrt(
             torch.tensor(1 / (4 * torch.pi), dtype=torch.float64)
         )
+        f_scal = f_scal * torch.ones(
+            samples.f_scal(L, J_min, lam, sampling, nside, True),
+            dtype=torch.float64,
+        )
     else:
         f_scal = spherical.inverse_transform_torch(
             temp, precomps[1], Ls, sampling, reality, spin, nside
-- 
2.43.0


From 043c740a53495c3f5a3167085647a014ae1ddd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:22 +0000
Subject: [PATCH 7/8] fix: lower bandlimit of an empty wavelet scale stays
 below its bandlimit

For non-integer lam a scale can hold no integer degree, and then
ceil(lam^(j-1)) == ceil(lam^(j+1)) == L_j; the Wigner transforms reject
(or mis-index) such an L_lower. Clamp it to L_j - 1.
---
 s2wav/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index 771bd09..3ffdd76 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -122,7 +122,7 @@ def LN_j(
     if j == 0:
         j += 1
     Lj = wav_j_bandlimit(L, j, lam, multiresolution)
-    L0j = L0_j(j, lam) if multiresolution else 0
+    L0j = min(L0_j(j, lam), Lj - 1) if multiresolution else 0
     Nj = N
     if multiresolution:
         Nj = min(N, Lj)
-- 
2.43.0


From 5fda9c0e0de99348919197bca569675050c8203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:11 +0000
Subject: [PATCH 8/8] fix: directional component of the JAX generator for N >
 63

2**gamma does not fit a 64-bit integer when N > 63, so tiling_direction_jax
raised OverflowError for these directionalities.
---
 s2wav/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index d3098c3..0f1848b 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -708,7 +708,7 @@ def tiling_direction_jax(L: int, N: int = 1) -> np.ndarray:
 
         ms = jnp.arange(-el, el + 1)
         val = nu * jnp.sqrt(
-            (samples.binomial_coefficient_jax(gamma, ((gamma - ms) / 2))) / (2**gamma)
+            (samples.binomial_coefficient_jax(gamma, ((gamma - ms) / 2))) / (2.0**gamma)
         )
 
         val = jnp.where(
-- 
2.43.0

