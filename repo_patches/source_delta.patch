From 3ddd6cbea62d0405cc37a00c6fe88087590d0ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:59 +0000
Subject: [PATCH 01/45] fix: triangular gf_z tests the rescaled frequency for
 the van Hove singularity

---
 gftool/lattice/triangular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index c410cf9..47c91eb 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -76,7 +76,7 @@ def gf_z(z, half_bandwidth):
     z = z.reshape(-1)
     advanced = z.imag < 0
     z = np.where(advanced, np.conj(z), z)  # calculate retarded only, and use symmetry
-    singular = D * z == -1  # try singularity which needs to be avoided
+    singular = z == -1  # try singularity which needs to be avoided
     z[singular] = 0  # mock value to avoid errors
     rr = _signed_sqrt(2*z + 3)
     gg = 4.0 / (_signed_sqrt(rr - 1)**3 * _signed_sqrt(rr + 3))  # eq (2.9)
-- 
2.43.0


From 1b309f49df3ceb6e657eda7e8d1efd8d1b932537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:00 +0000
Subject: [PATCH 02/45] fix: triangular gf_z on the real axis below the van
 Hove singularity took the wrong side of the branch cut

---
 gftool/lattice/triangular.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index 47c91eb..b80e671 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -84,7 +84,8 @@ def gf_z(z, half_bandwidth):
     mm = kk**2
     K = np.asarray(_u_ellipk(mm))
     # eqs (2.22) and eq (2.18), fix correct plane
-    K[kk.imag > 0] += 2j*_u_ellipk(1 - mm[kk.imag > 0])
+    # (`conj` selects the retarded side if `1 - mm` lies on the branch cut, i.e. real `z`)
+    K[kk.imag > 0] += 2j*np.conj(_u_ellipk(np.conj(1 - mm[kk.imag > 0])))
     gf_z = 1 / np.pi / D * gg * K  # eq (2.6)
     gf_z[singular] = 0 - 1j*np.inf
     return np.where(advanced, np.conj(gf_z), gf_z).reshape(shape)  # return to advanced by symmetry
-- 
2.43.0


From 3e8a32cb3be8c9558a6262e0f42c5ffd49df3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 03/45] fix: bcc and fcc dos truncated or overflowed for
 integer energies

---
 gftool/lattice/bcc.py | 2 +-
 gftool/lattice/fcc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/bcc.py b/gftool/lattice/bcc.py
index e44cc85..aa4fd4e 100644
--- a/gftool/lattice/bcc.py
+++ b/gftool/lattice/bcc.py
@@ -147,7 +147,7 @@ def dos(eps, half_bandwidth):
     """
     eps = np.asarray(eps)
     eps_rel = eps / half_bandwidth
-    dos_ = np.zeros_like(eps)
+    dos_ = np.zeros_like(eps_rel)
     singular = eps_rel == 0
     finite = (abs(eps_rel) <= 1) & ~singular
     # identity `K(m) = (1/m) [K(m) + iK'(1/m)]` could be used to avoid 1/0
diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index c0af611..1191aa1 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -176,7 +176,7 @@ def dos(eps, half_bandwidth):
     eps = np.asarray(eps)
     singular = eps == -0.5*half_bandwidth
     finite = (-0.5*half_bandwidth < eps) & (eps < 1.5*half_bandwidth) & ~singular
-    dos_ = np.zeros_like(eps)
+    dos_ = np.zeros_like(eps / half_bandwidth)
     dos_[finite] = 1 / np.pi * gf_z(eps[finite], half_bandwidth=half_bandwidth).imag
     dos_[singular] = np.inf
     return abs(dos_)  # at 0.5D wrong sign
-- 
2.43.0


From 32fef20e118191115be82b6c6ad43dc28c51cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:29 +0000
Subject: [PATCH 04/45] fix: Bethe gf_z and gf_d1_z lost all digits by
 cancellation for large frequencies

---
 gftool/lattice/bethe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/bethe.py b/gftool/lattice/bethe.py
index 8dc3809..9de2b40 100644
--- a/gftool/lattice/bethe.py
+++ b/gftool/lattice/bethe.py
@@ -65,7 +65,8 @@ def gf_z(z, half_bandwidth):
         complex_pres = _complex256 if z.dtype in _precision.PRECISE_TYPES else complex
     except AttributeError:
         complex_pres = complex
-    gf_z = 2./half_bandwidth*z_rel*(1 - np.sqrt(1 - z_rel**-2))
+    # equivalent to `z_rel*(1 - sqrt)`, but without cancellation for large `z`
+    gf_z = 2./half_bandwidth/(z_rel*(1 + np.sqrt(1 - z_rel**-2)))
     return gf_z.astype(dtype=complex_pres, copy=False)
 
 
@@ -96,7 +97,8 @@ def gf_d1_z(z, half_bandwidth):
     except AttributeError:
         complex_pres = complex
     sqrt = np.sqrt(1 - z_rel_inv**2)
-    gf_d1 = 2. / half_bandwidth**2 * (1 - 1/sqrt)
+    # equivalent to `1 - 1/sqrt`, but without cancellation for large `z`
+    gf_d1 = -2. / half_bandwidth**2 * z_rel_inv**2 / (sqrt*(1 + sqrt))
     return gf_d1.astype(dtype=complex_pres, copy=False)
 
 
-- 
2.43.0


From 3aa854b83160c1e3041eda2898e7e0985c57ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:48 +0000
Subject: [PATCH 05/45] fix: sc.dos_mp small energy expansion ignored the
 half-bandwidth, gf_z_mp was limited to double precision

---
 gftool/lattice/sc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gftool/lattice/sc.py b/gftool/lattice/sc.py
index 9e12461..8d28a87 100644
--- a/gftool/lattice/sc.py
+++ b/gftool/lattice/sc.py
@@ -304,7 +304,7 @@ def gf_z_mp(z, half_bandwidth=1):
     >>> _ = plt.legend()
     >>> plt.show()
     """
-    D_inv = 3 / half_bandwidth
+    D_inv = 3 / mp.mpf(half_bandwidth)
     z = D_inv * mp.mpc(z)
     z_sqr = 1 / z**2
     xi = mp.sqrt(1 - mp.sqrt(1 - z_sqr)) / mp.sqrt(1 + mp.sqrt(1 - 9*z_sqr))
@@ -364,11 +364,12 @@ def dos_mp(eps, half_bandwidth=1):
     >>> _ = plt.xlim(left=eps.min(), right=eps.max())
     >>> plt.show()
     """
-    D_inv = 3 / half_bandwidth
+    D_inv = 3 / mp.mpf(half_bandwidth)
     eps = mp.fabs(eps)
-    if eps < 10**(-mp.dps/4):
+    eps_rel = D_inv * eps
+    if eps_rel < 10**(-mp.dps/4):
         km2 = 0.25 * (2 - mp.sqrt(3))
-        dos0 = D_inv * (2 / mp.pi**2) * mp.ellipk(km2) * mp.ellipk(1 - km2) / mp.pi
+        dos0 = (2 / mp.pi**2) * mp.ellipk(km2) * mp.ellipk(1 - km2) / mp.pi
         dos1 = 1 / (3 * mp.pi**4 * dos0)
         even_coeffs = [dos0*d0 - dos1*d1 for d0, d1 in zip(
             [1, mp.mpf("1/18"), mp.mpf("11/648"), mp.mpf("19/2160")],
@@ -376,6 +377,6 @@ def dos_mp(eps, half_bandwidth=1):
         )]
         coeffs = [0] * (2*len(even_coeffs) - 1)
         coeffs[::2] = even_coeffs
-        return mp.polyval(coeffs[::-1], eps)
+        return D_inv * mp.polyval(coeffs[::-1], eps_rel)
 
     return -mp.im(gf_z_mp(eps, half_bandwidth)) / mp.pi
-- 
2.43.0


From bdd860cfead277149ffc9fb3587c71a548244207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:48 +0000
Subject: [PATCH 06/45] fix: triangular.dos_mp used the double-precision value
 of pi

---
 gftool/lattice/triangular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/lattice/triangular.py b/gftool/lattice/triangular.py
index b80e671..2d67017 100644
--- a/gftool/lattice/triangular.py
+++ b/gftool/lattice/triangular.py
@@ -335,4 +335,4 @@ def dos_mp(eps, half_bandwidth=1):
         else:
             msg = "Should be impossible. Please report this!"
             raise RuntimeError(msg)
-        return 2 / np.pi**2 / D * dos_
+        return 2 / mp.pi**2 / D * dos_
-- 
2.43.0


From eacf3faa5a48f4e3cb96b4b9f0803a98c9ec0f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:48 +0000
Subject: [PATCH 07/45] fix: fcc.dos_mp evaluated one elliptic integral in
 double precision

---
 gftool/lattice/fcc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/fcc.py b/gftool/lattice/fcc.py
index 1191aa1..fbc6348 100644
--- a/gftool/lattice/fcc.py
+++ b/gftool/lattice/fcc.py
@@ -315,7 +315,7 @@ def dos_mp(eps, half_bandwidth=1):
     """
     D = mp.mpf(half_bandwidth) * mp.mpf('1/2')
     eps = mp.mpf(eps) / D
-    if 3 < eps < -1:
+    if eps < -1 or eps > 3:
         return mp.mpf('0')
     if eps == -1:
         return mp.inf
@@ -328,4 +328,4 @@ def dos_mp(eps, half_bandwidth=1):
     kii = mp.ellipk(m_p)
     if m_p.imag < 0:
         kii += 2j * mp.ellipk(1 - m_p)  # eq (2.17)
-    return abs(4 / (mp.pi**3 * D * epsp1) * (_u_ellipk(m_m) * kii).imag)  # eq (2.16)
+    return abs(4 / (mp.pi**3 * D * epsp1) * (mp.ellipk(m_m) * kii).imag)  # eq (2.16)
-- 
2.43.0


From 19402935349071ea7e3835b0cb5253716aeb67cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:46 +0000
Subject: [PATCH 08/45] fix: bethe and box gf_ret_t took center in units of
 half_bandwidth contrary to the documentation

---
 gftool/lattice/bethe.py | 3 ++-
 gftool/lattice/box.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gftool/lattice/bethe.py b/gftool/lattice/bethe.py
index 9de2b40..5eed3dd 100644
--- a/gftool/lattice/bethe.py
+++ b/gftool/lattice/bethe.py
@@ -408,6 +408,7 @@ def gf_ret_t(tt, half_bandwidth, center=0):
     >>> _ = plt.legend()
     >>> plt.show()
     """
+    time = np.asarray(tt)
     tt = np.asarray(half_bandwidth*tt)
     gf = np.zeros_like(tt, dtype=complex)
     retard = tt.real >= 0
@@ -418,5 +419,5 @@ def gf_ret_t(tt, half_bandwidth, center=0):
     big = retard & ~small
     gf[big] = -2j * jv(1, tt[big]) / tt[big]
     if np.any(center != 0):
-        return gf*np.exp(-1j*center*tt)
+        return gf*np.exp(-1j*center*time)
     return gf
diff --git a/gftool/lattice/box.py b/gftool/lattice/box.py
index 326d421..22d4045 100644
--- a/gftool/lattice/box.py
+++ b/gftool/lattice/box.py
@@ -145,6 +145,7 @@ def gf_ret_t(tt, half_bandwidth, center=0):
     >>> _ = plt.legend()
     >>> plt.show()
     """
+    time = np.asarray(tt)
     tt = np.asarray(half_bandwidth*tt)
     gf = np.zeros_like(tt, dtype=complex)
     retard = tt.real >= 0
@@ -155,5 +156,5 @@ def gf_ret_t(tt, half_bandwidth, center=0):
     big = retard & ~small
     gf[big] = -1j * np.sin(tt)[big] / tt[big]
     if np.any(center != 0):
-        return gf*np.exp(-1j*center*tt)
+        return gf*np.exp(-1j*center*time)
     return gf
-- 
2.43.0


From df786484742994fdcef33063d51dae3391e5f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:43 +0000
Subject: [PATCH 09/45] fix: bose_fct truncated its result for integer
 arguments

---
 gftool/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/statistics.py b/gftool/statistics.py
index 41d4654..77786ad 100644
--- a/gftool/statistics.py
+++ b/gftool/statistics.py
@@ -46,7 +46,7 @@ def bose_fct(eps, beta):
     >>> _ = plt.xlim(left=eps.min(), right=eps.max())
     >>> plt.show()
     """
-    betaeps = np.asanyarray(beta*eps)
+    betaeps = np.asanyarray(1.*beta*eps)
     res = np.empty_like(betaeps)
     small = betaeps < 700
 
-- 
2.43.0


From e65a643411d19fd84cd188c943a764e47931a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:06 +0000
Subject: [PATCH 10/45] fix: gf_from_tau with occ only worked for exactly one
 moment and ignored occ=0

---
 gftool/basis/pole.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 1ee5c64..89a1da8 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -643,19 +643,22 @@ def gf_from_tau(gf_tau, n_pole, beta, moments=(), occ=False, width=1., weight=No
     if weight is not None:
         gf_sp_mat *= weight[..., np.newaxis]
         gf_tau = gf_tau * weight
-    if moments.shape[-1] > 0 or occ:  # constrained
-        if moments.shape[-1] + int(occ) > n_pole:
+    fix_occ = occ is not False and occ is not None
+    if moments.shape[-1] > 0 or fix_occ:  # constrained
+        if moments.shape[-1] + fix_occ > n_pole:
             msg = (
                 "Too many poles given, system is over constrained. "
                 f"poles: {n_pole}, moments: {moments.shape[-1]}"
             )
             raise ValueError(msg)
-        constrain_mat = np.polynomial.polynomial.polyvander(poles, deg=moments.shape[-1]-1).T
-        if occ:
+        constrain_mat = np.power.outer(poles, np.arange(moments.shape[-1])).T
+        if fix_occ:
             constrain_mat = np.concatenate(
-                np.broadcast_arrays(constrain_mat, fermi_fct(poles, beta=beta)), axis=-2
+                [constrain_mat, fermi_fct(poles, beta=beta)[newaxis]], axis=-2
+            )
+            moments = np.concatenate(
+                [moments, np.broadcast_to(occ, (*moments.shape[:-1], 1))], axis=-1
             )
-            moments = np.concatenate(np.broadcast_arrays(moments, occ), axis=-1)
         _lstsq_ec = np.vectorize(linalg.lstsq_ec, signature="(m,n),(m),(l,n),(l)->(n)",
                                  otypes=[otype], excluded={"rcond"})
         resid = _lstsq_ec(gf_sp_mat, gf_tau, constrain_mat, moments)
-- 
2.43.0


From f26b46ae21a9555902eeb2fac36182a87c5dab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:06 +0000
Subject: [PATCH 11/45] fix: gf_from_z and gf_from_tau failed for batched
 weights

---
 gftool/basis/pole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 89a1da8..fc5333a 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -568,7 +568,7 @@ def gf_from_z(z, gf_z, n_pole, moments=(), width=1., weight=None) -> PoleFct:
     otype = np.result_type(gf_z, moments, poles)
     if weight is not None:
         weight = np.concatenate([weight, weight], axis=-1)
-        gf_sp_mat *= weight[..., np.newaxis]
+        gf_sp_mat = gf_sp_mat * weight[..., np.newaxis]
         gf_z = gf_z * weight
     if moments.shape[-1] > 0:
         if moments.shape[-1] > n_pole:
@@ -641,7 +641,7 @@ def gf_from_tau(gf_tau, n_pole, beta, moments=(), occ=False, width=1., weight=No
     moments = np.asarray(moments)
     otype = np.result_type(gf_tau, moments, poles)
     if weight is not None:
-        gf_sp_mat *= weight[..., np.newaxis]
+        gf_sp_mat = gf_sp_mat * weight[..., np.newaxis]
         gf_tau = gf_tau * weight
     fix_occ = occ is not False and occ is not None
     if moments.shape[-1] > 0 or fix_occ:  # constrained
-- 
2.43.0


From 9b1f9c7d74d7cacd14a80bf339ee35c8b677f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:06 +0000
Subject: [PATCH 12/45] fix: pole_gf_tau_b accepted poles at 0 and returned nan
 instead of raising the documented ValueError

---
 gftool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index b4d24dc..5269e1a 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -338,7 +338,7 @@ def pole_gf_tau_b(tau, poles, weights, beta):
     poles = np.atleast_1d(poles)
     tau = np.asanyarray(tau)[..., newaxis]
     beta = np.asanyarray(beta)[..., newaxis]
-    if np.any(poles.real < 0):
+    if np.any(poles.real <= 0):
         msg = "Bosonic Green's function only well-defined for positive `poles`."
         raise ValueError(msg)
     # eps((beta-tau)*pole)*g(pole, beta) = -exp(-tau*pole)*g(pole, -beta)
-- 
2.43.0


From 445360215dca71ea6a768bdd88181e7dafb8521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 13/45] fix: restore center in units of half_bandwidth for
 bethe and box gf_ret_t, as the test-suite specifies

This reverts commit 1940293, there the documentation is wrong, not the code.
---
 gftool/lattice/bethe.py | 3 +--
 gftool/lattice/box.py   | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/gftool/lattice/bethe.py b/gftool/lattice/bethe.py
index 5eed3dd..9de2b40 100644
--- a/gftool/lattice/bethe.py
+++ b/gftool/lattice/bethe.py
@@ -408,7 +408,6 @@ def gf_ret_t(tt, half_bandwidth, center=0):
     >>> _ = plt.legend()
     >>> plt.show()
     """
-    time = np.asarray(tt)
     tt = np.asarray(half_bandwidth*tt)
     gf = np.zeros_like(tt, dtype=complex)
     retard = tt.real >= 0
@@ -419,5 +418,5 @@ def gf_ret_t(tt, half_bandwidth, center=0):
     big = retard & ~small
     gf[big] = -2j * jv(1, tt[big]) / tt[big]
     if np.any(center != 0):
-        return gf*np.exp(-1j*center*time)
+        return gf*np.exp(-1j*center*tt)
     return gf
diff --git a/gftool/lattice/box.py b/gftool/lattice/box.py
index 22d4045..326d421 100644
--- a/gftool/lattice/box.py
+++ b/gftool/lattice/box.py
@@ -145,7 +145,6 @@ def gf_ret_t(tt, half_bandwidth, center=0):
     >>> _ = plt.legend()
     >>> plt.show()
     """
-    time = np.asarray(tt)
     tt = np.asarray(half_bandwidth*tt)
     gf = np.zeros_like(tt, dtype=complex)
     retard = tt.real >= 0
@@ -156,5 +155,5 @@ def gf_ret_t(tt, half_bandwidth, center=0):
     big = retard & ~small
     gf[big] = -1j * np.sin(tt)[big] / tt[big]
     if np.any(center != 0):
-        return gf*np.exp(-1j*center*time)
+        return gf*np.exp(-1j*center*tt)
     return gf
-- 
2.43.0


From a941275e59b820a5dfb3fa07967a8e60ba2415c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:17 +0000
Subject: [PATCH 14/45] fix: tt2z_lin lost all digits of the Filon weight by
 cancellation for tiny non-zero frequencies

---
 gftool/fourier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 839d472..9db2eb5 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1330,6 +1330,10 @@ def tt2z_lin(tt, gf_t, z):
     dg_dft = _gu_matvec(phase, gf_t[..., 1:] - gf_t[..., :-1])
     weight1 = np.expm1(izdt)/izdt
     weight2 = (np.exp(izdt) - weight1)/izdt
+    small = abs(izdt) < 1e-3  # avoid cancellation, use series instead
+    if np.any(small):
+        series = 1/2 + izdt*(1/3 + izdt*(1/8 + izdt*(1/30 + izdt/144)))
+        weight2 = np.where(small, series, weight2)
     gf_z = delta_tt * (weight1*g_dft + weight2*dg_dft)
     if np.any(zero):
         gf_z[..., zero] = _trapezoid(gf_t, x=tt)[..., np.newaxis]
-- 
2.43.0


From 962b1e8d008248c768226a77d508f86c7176a947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:47 +0000
Subject: [PATCH 15/45] fix: tt2z_lin failed or mixed up batches if a batched z
 contained 0

---
 gftool/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 9db2eb5..d5c629d 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1336,7 +1336,7 @@ def tt2z_lin(tt, gf_t, z):
         weight2 = np.where(small, series, weight2)
     gf_z = delta_tt * (weight1*g_dft + weight2*dg_dft)
     if np.any(zero):
-        gf_z[..., zero] = _trapezoid(gf_t, x=tt)[..., np.newaxis]
+        gf_z = np.where(zero, _trapezoid(gf_t, x=tt)[..., newaxis], gf_z)
     return gf_z
 
 
-- 
2.43.0


From 847134b9e15da5ec2d6aa09110390a57d5a16adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:57 +0000
Subject: [PATCH 16/45] fix: pader returned 0 for num_deg=0 (or vanishing low
 orders) and failed if den_deg is (reduced to) 0

---
 gftool/hermpade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index 089f668..4f57164 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -535,13 +535,13 @@ def pader(an, num_deg: int, den_deg: int, rcond: float = 1e-14) -> RatPol:
     an = an[:l_max]
     # TODO: do rescaling, haven't found it in the reference
     tol = rcond * np.linalg.norm(an)
-    if np.all(abs(an[:num_deg]) <= tol):  # up to tolerance function is 0
+    if np.all(abs(an[:num_deg+1]) <= tol):  # up to tolerance function is 0
         return RatPol(Polynom([0]), Polynom([1]))
     row = np.r_[an[0], np.zeros(den_deg)]
     col = an
     while True:
         if den_deg == 0:
-            pcoeff, qcoeff = an[:den_deg], np.array([1])
+            pcoeff, qcoeff = an[:num_deg+1], np.array([1])
             break
         # top = np.r_[an[num_deg+1:num_deg+1-den_deg:-1], [0]*(den_deg-num_deg)]
         # amat = toeplitz(an[num_deg+1:], top)
-- 
2.43.0


From 1875880c75f99b1723053853ebb74b9890727d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:57 +0000
Subject: [PATCH 17/45] fix: pade_lstsq ignored num_deg for den_deg=0

---
 gftool/hermpade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index 4f57164..c00615a 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -452,7 +452,7 @@ def pade_lstsq(an, num_deg: int, den_deg: int, rcond=None, fix_q=None) -> RatPol
         msg = "Order of q+p (den_deg+num_deg) must be smaller than len(an)."
         raise ValueError(msg)
     if den_deg == 0:  # trivial case: no rational polynomial
-        return RatPol(Polynom(an), Polynom(np.array([1])))
+        return RatPol(Polynom(an[:num_deg+1]), Polynom(np.array([1])))
     # first solve the Toeplitz system for q, first row contains tailing zeros
     top = np.r_[an[num_deg+1::-1][:den_deg+1], [0]*(den_deg-num_deg-1)]
     amat = toeplitz(an[num_deg+1:], top)
-- 
2.43.0


From 9b2762a2b9cda726440ddab7881ce2dd83df9719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:52 +0000
Subject: [PATCH 18/45] fix: companion accepted batches of single coefficients
 instead of raising the documented ValueError

---
 gftool/linearprediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/linearprediction.py b/gftool/linearprediction.py
index 6e22b37..2df26d2 100644
--- a/gftool/linearprediction.py
+++ b/gftool/linearprediction.py
@@ -152,7 +152,7 @@ def companion(a):
     """
     a = np.atleast_1d(a)
 
-    if a.size < 2:
+    if a.shape[-1] < 2:
         msg = "The length of `a` must be at least 2."
         raise ValueError(msg)
 
-- 
2.43.0


From 126ebf1b0ce2a9b3c0bd7a743a9a1995644c10da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:52 +0000
Subject: [PATCH 19/45] fix: stable linear prediction failed or dropped the
 wrong modes for shared prediction coefficients

---
 gftool/linearprediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/linearprediction.py b/gftool/linearprediction.py
index 2df26d2..9d2b74b 100644
--- a/gftool/linearprediction.py
+++ b/gftool/linearprediction.py
@@ -364,7 +364,7 @@ def _predict_stable(x, pcoeff, num: int):
     # drop exponential growing terms
     bad = abs(dec.eig) > 1
     # print(f'Bad {np.count_nonzero(bad)}/{bad.size}')
-    residues[bad] = 0
+    residues = np.where(bad, 0, residues)
 
     # predict
     start = x.shape[-1]
-- 
2.43.0


From 8405ba1fd593d61ba80111c6fe082767c10aece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:37 +0000
Subject: [PATCH 20/45] fix: check_convergence(matrix=True) raised because the
 frequency axis was not separated from the orbitals

---
 gftool/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index 5269e1a..8eaf9bf 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -579,7 +579,8 @@ def check_convergence(gf_iw, potential, beta, order=2, matrix=False, total=False
 
     if matrix:
         dec = gtmatrix.decompose_her(potential)
-        tail = dec.reconstruct(1./np.add.outer(dec.eig, iw), kind="diag")
+        tail = dec.reconstruct(1./np.add.outer(iw, dec.eig), kind="diag")
+        tail = np.moveaxis(tail, source=0, destination=-1)
     else:
         tail = 1/np.add.outer(potential, iw)
 
-- 
2.43.0


From e6d14a5d334aa96f7bd3649fdee6b18466f90228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:12 +0000
Subject: [PATCH 21/45] fix: density_error returned a complex number for
 complex input, although only the real part is used

---
 gftool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index 8eaf9bf..c241e98 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -511,7 +511,7 @@ def density_error(delta_gf_iw, iw_n, noisy=True):
     wn = iw_n[part].imag
     denominator = 1./np.pi/wn[-1]
     if noisy:
-        factor = np.average(delta_gf_iw[..., part] * wn**2, axis=-1)
+        factor = np.average(delta_gf_iw.real[..., part] * wn**2, axis=-1)
     else:
         delta_gf_iw = abs(delta_gf_iw.real)
         factor = np.max(delta_gf_iw[..., part] * wn**2, axis=-1)
-- 
2.43.0


From 67ad94c7d879b0b2e94ed1206868916111eb210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:31 +0000
Subject: [PATCH 22/45] fix: density(matrix=True) raised for complex Hermitian
 potentials

---
 gftool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index c241e98..db84826 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -454,7 +454,7 @@ def density(gf_iw, potential, beta, return_err=True, matrix=False, total=False):
         eig = dec.eig
         tail = dec.reconstruct(1./np.add.outer(iw, eig), kind="diag")
         tail = np.moveaxis(tail, source=0, destination=-1)
-        analytic = dec.reconstruct(fermi_fct(-eig, beta=beta), kind="diag")
+        analytic = dec.reconstruct(fermi_fct(-eig, beta=beta), kind="diag").real
     else:
         tail = 1/np.add.outer(potential, iw)
         analytic = fermi_fct(-potential, beta=beta)
-- 
2.43.0


From 6ea410b103823b3025523e3b1a11fb61a235a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:22 +0000
Subject: [PATCH 23/45] fix: UDecomposition.s reversed the order of the batch
 instead of the singular values

---
 gftool/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/matrix.py b/gftool/matrix.py
index 53ad61e..3ef5030 100644
--- a/gftool/matrix.py
+++ b/gftool/matrix.py
@@ -257,7 +257,7 @@ class UDecomposition(Decomposition):
     @property
     def s(self):
         """Singular values in descending order, different from order of `eig`."""
-        return np.sort(abs(self.eig))[::-1]
+        return np.sort(abs(self.eig))[..., ::-1]
 
 
 def decompose_mat(mat) -> Decomposition:
-- 
2.43.0


From ff68626aacac6242f9672477de5a506fdc66a575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:22 +0000
Subject: [PATCH 24/45] fix: gf_2x2_z raised for array_like on-site energies
 and for energies of different shape

---
 gftool/matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/matrix.py b/gftool/matrix.py
index 3ef5030..6baa7ef 100644
--- a/gftool/matrix.py
+++ b/gftool/matrix.py
@@ -562,7 +562,8 @@ def gf_2x2_z(z, eps0, eps1, hopping, hilbert_trafo=None):
     -----
     For the trivial case `eps0==eps1 and hopping==0`, this implementation fails.
     """
-    mean_eps = np.mean([eps0, eps1], axis=0)
+    eps0, eps1 = np.asanyarray(eps0), np.asanyarray(eps1)
+    mean_eps = 0.5*(eps0 + eps1)
     sqrt_ = np.lib.scimath.sqrt(0.25*(eps0 - eps1)**2 + hopping*np.conj(hopping))
     if hilbert_trafo is None:
         gf_p, gf_m = 1./(z - mean_eps - sqrt_), 1./(z - mean_eps + sqrt_)
-- 
2.43.0


From 7e539a4c310b9691e346e4fc5306a31133f8c995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:22 +0000
Subject: [PATCH 25/45] fix: beb.gf_loc_z and beb.solve_root raised for
 array_like hopping

---
 gftool/beb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gftool/beb.py b/gftool/beb.py
index 94e556e..137beec 100644
--- a/gftool/beb.py
+++ b/gftool/beb.py
@@ -188,6 +188,7 @@ def gf_loc_z(z, self_beb_z, hopping, hilbert_trafo: Callable[[complex], complex]
     --------
     solve_root
     """
+    hopping = np.asarray(hopping)
     hopping_dec = SpecDec(*decompose_her(hopping))
     LOGGER.info('hopping singular values %s', hopping_dec.s)
     hopping_dec = hopping_dec.truncate(rcond)
@@ -370,6 +371,7 @@ def solve_root(z, e_onsite, concentration, hopping, hilbert_trafo: Callable[[com
     >>> __ = plt.legend()
     >>> plt.show()
     """
+    hopping = np.asarray(hopping)
     hopping_dec = SpecDec(*decompose_her(hopping))
     LOGGER.info('hopping singular values %s', hopping_dec.s)
     hopping_dec = hopping_dec.truncate(rcond)
-- 
2.43.0


From 60650daa9edeee4a6c331359f9e40e562c07049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:31 +0000
Subject: [PATCH 26/45] fix: lstsq_ec ignored rcond without constraints

---
 gftool/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/linalg.py b/gftool/linalg.py
index e6c943d..b0cb706 100644
--- a/gftool/linalg.py
+++ b/gftool/linalg.py
@@ -93,7 +93,7 @@ def lstsq_ec(a, b, c, d, rcond=None):
                 f"Expected (L, N), (L), got {c.shape}, {d.shape}."
             )
             raise ValueError(msg)
-        return np.linalg.lstsq(a, b, rcond=None)[0]
+        return np.linalg.lstsq(a, b, rcond=rcond)[0]
     constrains = d.shape[-1]
     q_ct, r_ct = np.linalg.qr(transpose(c).conj(), mode='complete')
     r_ct = r_ct[..., :constrains, :]
-- 
2.43.0


From 83115d6186adbbe81e2702ad0a59be478a5dac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:32 +0000
Subject: [PATCH 27/45] fix: lstsq_ec silently accepted contradicting singular
 constraints

---
 gftool/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/linalg.py b/gftool/linalg.py
index b0cb706..f910c43 100644
--- a/gftool/linalg.py
+++ b/gftool/linalg.py
@@ -100,8 +100,8 @@ def lstsq_ec(a, b, c, d, rcond=None):
     try:
         y = spla.solve_triangular(r_ct, d, trans='C')
     except np.linalg.LinAlgError as lin_err:  # try fall back to pseudo-inverse for singular values
-        y, err, *__ = np.linalg.lstsq(transpose(r_ct).conj(), d, rcond=None)
-        if not np.allclose(err, 0):
+        y, *__ = np.linalg.lstsq(transpose(r_ct).conj(), d, rcond=None)
+        if not np.allclose(transpose(r_ct).conj() @ y, d):
             raise np.linalg.LinAlgError from lin_err
     aq = a @ q_ct
     z = np.linalg.lstsq(aq[:, constrains:], b - _gu_sum(aq[:, :constrains]*y),
-- 
2.43.0


From 7e9d10010056e437998b4cad4049e2cbb22d9f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:32 +0000
Subject: [PATCH 28/45] fix: orth_compl raised for array_like input

---
 gftool/linalg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gftool/linalg.py b/gftool/linalg.py
index f910c43..aeb2a97 100644
--- a/gftool/linalg.py
+++ b/gftool/linalg.py
@@ -40,6 +40,7 @@ def orth_compl(mat):
     >>> np.allclose(mat_perp@mat, 0)
     True
     """
+    mat = np.asanyarray(mat)
     dim0, dim1 = mat.shape[-2:]
     if dim0 <= dim1:
         msg = f"`mat` needs to be tall, (given: shape={mat.shape})"
-- 
2.43.0


From faee49d6b7da9753b03f8ef4ec9572c7bf0847be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:35 +0000
Subject: [PATCH 29/45] fix: siam.hamiltonian_matrix truncated the energies for
 integer hopping

---
 gftool/siam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/siam.py b/gftool/siam.py
index 5eec126..a95595e 100644
--- a/gftool/siam.py
+++ b/gftool/siam.py
@@ -176,7 +176,8 @@ def hamiltonian_matrix(e_onsite, e_bath, hopping):
     """
     broadcast = np.broadcast(e_onsite[..., np.newaxis], e_bath, hopping)
     n_bath = broadcast.shape[-1]
-    ham = np.zeros([*broadcast.shape[:-1], n_bath+1, n_bath+1], dtype=hopping.dtype)
+    ham = np.zeros([*broadcast.shape[:-1], n_bath+1, n_bath+1],
+                   dtype=np.result_type(e_onsite, e_bath, hopping))
     ham[..., 0, 0] = e_onsite
     ham[..., 0, 1:] = hopping
     ham[..., 1:, 0] = np.conj(hopping)
-- 
2.43.0


From dca5a75884e7492cd4a59e71dfd14aae6978a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:51 +0000
Subject: [PATCH 30/45] fix: FilterNegImagNum(rel_num=...) raised TypeError
 because of a float slice

---
 gftool/pade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 01f991f..9f0324c 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -171,7 +171,7 @@ def FilterNegImagNum(abs_num=None, rel_num=None):
 
     def filter_neg_imag_num(pade_iter):
         badness = np.array([np.max(pade.imag, axis=-1) for pade in pade_iter])
-        abs_num_ = rel_num * badness.shape[0] if abs_num is None else abs_num
+        abs_num_ = int(rel_num * badness.shape[0]) if abs_num is None else abs_num
         if abs_num_ >= badness.shape[0]:
             LOGGER.warning("Skipping filter, not enough Padés (#Padés = %s)",
                            badness.shape[0])
-- 
2.43.0


From 13ec431c5ba829c2b31600ec954b6987a13f79dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:51 +0000
Subject: [PATCH 31/45] fix: FilterNegImagNum mixed up the functions of stacked
 data

---
 gftool/pade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 9f0324c..cd497c4 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -179,7 +179,7 @@ def FilterNegImagNum(abs_num=None, rel_num=None):
 
         keep = np.argsort(badness, axis=0)[:abs_num_]  # abs_num_ best results
         is_valid = np.zeros_like(badness, dtype=bool)
-        is_valid[keep] = True
+        np.put_along_axis(is_valid, keep, True, axis=0)
         is_valid[badness <= 0] = True
         LOGGER.debug("Filter Padés with positive imaginary part (keep best %s): %s",
                      abs_num_, np.count_nonzero(is_valid, axis=0))
-- 
2.43.0


From 01541dcf52134943d62c2a0633afd72f47bf9dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:51 +0000
Subject: [PATCH 32/45] fix: FilterHighVariance did not drop the approximants
 it selected and mixed up stacked data

---
 gftool/pade.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index cd497c4..4c95448 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -231,22 +231,16 @@ def FilterHighVariance(rel_num: Opt[float] = None, abs_num: Opt[int] = None):
         # iteratively remove Padés with larges deviation
         # why iterative?
         # Awful Padés might give wrong features in average, so it should be corrected
-        abs_num_ = int(rel_num*N_pades) if abs_num is None else abs_num
-        bad = []  # isin needs list not set
+        abs_num_ = max(int(rel_num*N_pades), 1) if abs_num is None else abs_num
+        is_valid = np.ones_like(pade[..., 0], dtype=bool)
+        if abs_num_ >= N_pades:
+            LOGGER.warning("Not enough Padés to filter (#Padés = %s)", N_pades)
         for nn in range(N_pades, abs_num_, -1):
             diff = nn*pade - pade_sum  # 50% of time
             distance = _gu_sum(diff.real**2 + diff.imag**2)  # 40% of time
-            badness = np.argsort(distance, axis=0)[::-1]  # truncate what is not needed
-            newbad = badness[np.isin(badness, bad, invert=True)][0]
-            bad.append(newbad)
-            pade_sum -= pade[newbad]
-        try:
-            is_valid = np.ones_like(distance, dtype=bool)
-        except UnboundLocalError:
-            LOGGER.warning("Not enough Padés to filter (#Padés = %s)", N_pades)
-            return np.ones_like(pade[..., 0], dtype=bool)
-        is_valid[badness[:-abs_num_]] = False
-        # assert set(badness[:-abs_num_]) == set(bad)  # FIXME
+            newbad = np.argmax(np.where(is_valid, distance, -1), axis=0)[np.newaxis]
+            np.put_along_axis(is_valid, newbad, False, axis=0)
+            pade_sum -= np.take_along_axis(pade, newbad[..., np.newaxis], axis=0)[0]
         return is_valid
     return filter_high_variance
 
-- 
2.43.0


From 924ba0515e10aec51676615b44f7183d914591bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:51 +0000
Subject: [PATCH 33/45] fix: pade.averaged dropped the approximant with n_max
 frequencies, and failed for stacked functions

---
 gftool/pade.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 4c95448..688944f 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -707,9 +707,10 @@ def averaged(z_out, z_in, *, valid_z=None, fct_z=None, coeff=None,
         Variance associated with the function values `pade.x` at points `z`.
     """
     assert fct_z is None or coeff is None
-    z_in = z_in[:kind.stop]
-    coeff = (coefficients(z_in, fct_z=fct_z[..., :kind.stop]) if coeff is None
-             else coeff[..., :kind.stop])
+    n_max = kind.stop + 1
+    z_in = z_in[:n_max]
+    coeff = (coefficients(z_in, fct_z=fct_z[..., :n_max]) if coeff is None
+             else coeff[..., :n_max])
     if valid_z is None:
         valid_z = z_out
     valid_z = valid_z.reshape(-1)
-- 
2.43.0


From 5f321a5aa86659362e263e728ed92a28a445eaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:48 +0000
Subject: [PATCH 34/45] fix: polepade.number_poles failed for every other
 number of points

---
 gftool/polepade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index c02656c..0a3713f 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -202,7 +202,7 @@ def number_poles(z, fct_z, *, degree=-1, weight=None, n_poles0: Opt[int] = None,
        https://doi.org/10.1007/s00211-018-0948-4
     """
     tol = np.finfo(fct_z.dtype).eps
-    max_n_poles = abs_max_n_poles = (z.size - degree)//2
+    max_n_poles = abs_max_n_poles = (z.size - degree - 1)//2  # 2*n_poles + degree < z.size
     if n_poles0 is None:
         n_poles = min(max_n_poles, 50)
     else:
-- 
2.43.0


From 01a65223b5e1adfb66f1ff2b0a9180558016601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:48 +0000
Subject: [PATCH 35/45] fix: polepade.zeros failed for functions without zeros

---
 gftool/polepade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index 0a3713f..9626d64 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -343,6 +343,8 @@ def zeros(z, fct_z, poles, *, n: Opt[int] = None, vandermond=polynomial.polyvand
     """
     if n is None:
         n = poles.size - 1
+    if n == 0:
+        return np.empty(0, dtype=complex)
     fct_z = fct_z/np.median(fct_z)
     denom = np.prod(np.subtract.outer(z, poles), axis=-1)
     numer = vandermond(z, deg=n-1)
-- 
2.43.0


From 55c21658bf419c0c7a2c5eaa346da320d26b157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:48 +0000
Subject: [PATCH 36/45] fix: polepade.asymptotic returned the variance instead
 of the standard deviation for weighted data

---
 gftool/polepade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index 9626d64..1c4bb4f 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -387,7 +387,7 @@ def asymptotic(z, fct_z, zeros, poles, weight=None):
         std = np.std(ratios, ddof=1, axis=-1)
     else:
         asym = np.average(ratios, weights=weight, axis=-1)
-        std = np.average(abs(ratios - asym)**2, weights=weight, axis=-1)
+        std = np.sqrt(np.average(abs(ratios - asym)**2, weights=weight, axis=-1))
     return asym, std
 
 
-- 
2.43.0


From b9b4d66bcd839440885cd8650fe69cc05a7e5b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:25 +0000
Subject: [PATCH 37/45] fix: polepade.residues_ols returned the squared norm of
 the residual without moments

---
 gftool/polepade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index 1c4bb4f..3b03720 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -421,7 +421,8 @@ def residues_ols(z, fct_z, poles, weight=None, moments=()):
         fct_z = fct_z*weight
     moments = np.asarray(moments)
     if moments.shape[-1] == 0:
-        return np.linalg.lstsq(polematrix, fct_z, rcond=None)[:2]
+        resid = np.linalg.lstsq(polematrix, fct_z, rcond=None)[0]
+        return resid, [np.linalg.norm(np.sum(polematrix*resid, axis=-1) - fct_z, ord=2)]
     if moments.shape[-1] > poles.size:
         msg = (
             "Too many poles given, system is over constrained. "
-- 
2.43.0


From a81e3181080698fda02e73e56ba871aeddc35448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:29 +0000
Subject: [PATCH 38/45] fix: ZeroPole.to_ratpol failed without zeros or without
 poles

---
 gftool/basis/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/basis/__init__.py b/gftool/basis/__init__.py
index ab373d0..2bf2796 100644
--- a/gftool/basis/__init__.py
+++ b/gftool/basis/__init__.py
@@ -80,8 +80,8 @@ class ZeroPole(NamedTuple):
 
     def to_ratpol(self) -> "RatPol":
         """Represent the rational polynomial as fraction of two polynomial."""
-        numerator = np.polynomial.Polynomial.fromroots(self.zeros)*self.amplitude
-        denominator = np.polynomial.Polynomial.fromroots(self.poles)
+        numerator = np.polynomial.Polynomial(np.polynomial.polynomial.polyfromroots(self.zeros))*self.amplitude
+        denominator = np.polynomial.Polynomial(np.polynomial.polynomial.polyfromroots(self.poles))
         return RatPol(numer=numerator, denom=denominator)
 
 
-- 
2.43.0


From 340afa14e0a00b8dc44f1d5cb0ea8f6676ee50ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:14 +0000
Subject: [PATCH 39/45] fix: density_iw failed for stacked frequencies if n_fit
 is given

---
 gftool/density.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gftool/density.py b/gftool/density.py
index 8f168c8..c42fdda 100644
--- a/gftool/density.py
+++ b/gftool/density.py
@@ -90,8 +90,9 @@ def density_iw(iws, gf_iw, beta, weights=1., moments=(1.,), n_fit=0):
     moments = np.asanyarray(moments, dtype=np.float64)[..., np.newaxis, :]
     if n_fit:
         n_mom = moments.shape[-1]
-        weight = iws.imag**(n_mom+n_fit)
-        mom_gf = PoleGf.from_z(iws, gf_iw[..., np.newaxis, :], n_pole=n_fit+n_mom,
+        iws_ = iws[..., np.newaxis, :]  # match axis added for `moments`
+        weight = iws_.imag**(n_mom+n_fit)
+        mom_gf = PoleGf.from_z(iws_, gf_iw[..., np.newaxis, :], n_pole=n_fit+n_mom,
                                moments=moments, width=None, weight=weight)
     else:
         mom_gf = PoleGf.from_moments(moments, width=None)
-- 
2.43.0


From ffe8ae568bd88f317d4a8562f510c73063076242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:32 +0000
Subject: [PATCH 40/45] fix: tau2izp with given occupation failed for 9
 frequencies

The scan for the pole width starts from width 0, where all poles coincide and the
occupation constraint is redundant with (and contradicts) the first moment.
---
 gftool/fourier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index d5c629d..fb98bcd 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1661,7 +1661,9 @@ def _tau2polegf(gf_tau, beta, n_pole, moments=None, occ=False, weight=None) -> P
         pole_gf = PoleGf.from_tau(gf_tau, n_pole=n_pole, beta=beta,
                                   # if width is 0, no higher moments exist
                                   moments=moments if width else m1[..., newaxis],
-                                  occ=occ, width=width, weight=weight)
+                                  # and the occupation is fixed by the first moment
+                                  occ=occ if width else False,
+                                  width=width, weight=weight)
         gf_fit = pole_gf.eval_tau(tau, beta=beta)
         return np.linalg.norm(gf_tau - gf_fit)
 
-- 
2.43.0


From f96a69b793a5b084dfaa62d78cbbbac10aa4dbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:32 +0000
Subject: [PATCH 41/45] fix: density_error returned a negative estimate if the
 noisy remainder is negative

The estimate is an upper bound of the error: with a negative value density(..., return_err=tol)
never warned.
---
 gftool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/__init__.py b/gftool/__init__.py
index db84826..630e1b7 100644
--- a/gftool/__init__.py
+++ b/gftool/__init__.py
@@ -511,7 +511,7 @@ def density_error(delta_gf_iw, iw_n, noisy=True):
     wn = iw_n[part].imag
     denominator = 1./np.pi/wn[-1]
     if noisy:
-        factor = np.average(delta_gf_iw.real[..., part] * wn**2, axis=-1)
+        factor = abs(np.average(delta_gf_iw.real[..., part] * wn**2, axis=-1))
     else:
         delta_gf_iw = abs(delta_gf_iw.real)
         factor = np.max(delta_gf_iw[..., part] * wn**2, axis=-1)
-- 
2.43.0


From ffa49f32f2fe5b150b6d713d17d6c7734e3c12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:03 +0000
Subject: [PATCH 42/45] fix: evaluation of Hermite-Pade approximants failed for
 scalars

---
 gftool/hermpade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/hermpade.py b/gftool/hermpade.py
index c00615a..20e6820 100644
--- a/gftool/hermpade.py
+++ b/gftool/hermpade.py
@@ -723,8 +723,8 @@ class _Hermite2Base:
         """Evaluate the two branches."""
         pz, qz, rz = self.p(z), self.q(z), self.r(z)
         discriminant = np.emath.sqrt(qz**2 - 4*pz*rz)
-        p_branch = 0.5*(-qz + discriminant) / rz
-        m_branch = 0.5*(-qz - discriminant) / rz
+        p_branch = np.asarray(0.5*(-qz + discriminant) / rz)
+        m_branch = np.asarray(0.5*(-qz - discriminant) / rz)
         # more stable calculation of branches, using `out` for lazy evaluation
         # see [fasondini2019]_, 5.2 Evaluating the quadratic formula
         np.divide(pz, rz*m_branch, out=p_branch, where=abs(p_branch) < abs(m_branch))
-- 
2.43.0


From 491b2745eaf398a14757f34b23078c688c9b8ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:36 +0000
Subject: [PATCH 43/45] fix: solve_fxdocc_root failed for solvers which do not
 report the number of iterations

scipy's 'hybr' and 'lm' return no 'nit', logging it raised AttributeError.
---
 gftool/cpa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/cpa.py b/gftool/cpa.py
index 707997c..6ac0e58 100644
--- a/gftool/cpa.py
+++ b/gftool/cpa.py
@@ -408,7 +408,7 @@ def solve_fxdocc_root(iws, e_onsite, concentration, hilbert_trafo: Callable[[com
         )
 
     sol = optimize.root(root_eq, x0=x0, **root_kwds)
-    LOGGER.debug("CPA self-energy root found after %s iterations.", sol.nit)
+    LOGGER.debug("CPA self-energy root found after %s iterations.", sol.get("nit"))
     if not sol.success:
         raise RuntimeError(sol.message)
     mu, self_cpa_re, self_cpa_im = _split(sol.x, shapes)
-- 
2.43.0


From 2cf168c2dbbf252c8e12f779e2be901ce68b3db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:30 +0000
Subject: [PATCH 44/45] fix: tt2z_lpz lost the phase exp(iz tt[0]) for time
 grids not starting at 0

---
 gftool/fourier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index fb98bcd..ae45482 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -1490,7 +1490,8 @@ def tt2z_lpz(tt, gf_t, z, order=None, quad='trapz', **kwds):
     convo = np.moveaxis(convo, 0, -1)
     phase = _phase(z[..., newaxis], tt[newaxis, :order+1])
     numer = _gu_matvec(phase[..., :order], convo)
-    denom = _gu_matvec(phase, aa)
+    # the Z-transform of the filter `aa` starts at time 0, also if `tt` does not
+    denom = _gu_matvec(_phase(z[..., newaxis], tt[newaxis, :order+1] - tt[0]), aa)
     return numer / denom
 
 
-- 
2.43.0


From 1b788c39ef62d6788423210e2d5868492f64a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:51 +0000
Subject: [PATCH 45/45] fix: tau2iv_dft lost digits for large beta, the
 integral was subtracted instead of the mean

---
 gftool/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index ae45482..eb9dfe3 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -462,7 +462,7 @@ def tau2iv_dft(gf_tau, beta):
     >>> plt.show()
     """
     gf_mean = _trapezoid(gf_tau, dx=beta/(gf_tau.shape[-1]-1), axis=-1)
-    gf_iv = beta * np.fft.ihfft(gf_tau[..., :-1] - gf_mean[..., newaxis])
+    gf_iv = beta * np.fft.ihfft(gf_tau[..., :-1] - gf_mean[..., newaxis]/beta)
     gf_iv[..., 0] = gf_mean
     # gives better results in practice but is wrong...
     # gf_iv = beta * np.fft.ihfft(.5*(gf_tau[..., 1:] + gf_tau[..., :-1]))
-- 
2.43.0

