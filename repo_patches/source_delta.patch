From 966a8efe438dfab6ea665dc0df4dc8891122c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 01/23] fix: wetting the perimeter must respect the mixed layer
 of the cast being wetted

---
 neutralocean/bfs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutralocean/bfs.py b/neutralocean/bfs.py
index 728f9e1..b0d17a6 100644
--- a/neutralocean/bfs.py
+++ b/neutralocean/bfs.py
@@ -336,9 +336,9 @@ def bfs_conncomp1_wet_perim(
                             tol_p, s[n], t[n], p[n], Pm, Sppc, Tppc, eos
                         )
 
-                        if np.isfinite(p_) and p_ > p_ml[n]:
+                        if np.isfinite(p_) and p_ > p_ml[m]:
                             # The NTP connection was successful, and its location
-                            # on the neighbouring cast is below the mixed layer.
+                            # on the dry cast is below the mixed layer there.
                             p0 += p_
                             denom += 1
 
-- 
2.43.0


From fdcce137da63b685858ee85c948f375e8c8bbf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 02/23] fix: omega_surf crashed when its pinning point is in
 the mixed layer

---
 neutralocean/surface/omega.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 473296b..2caf8e3 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -381,6 +381,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
         # --- Remove the Mixed Layer
         if p_ml is not None and iter_ > 1:
             p[p < p_ml] = np.nan
+            p[pin_c] = pin_p  # the surface is always pinned here
 
         # --- Determine the connected component containing the reference cast, via Breadth First Search
         timer_loc = time()
-- 
2.43.0


From 455cea7116bf2b56d4dc527fa4d782c4ad080d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 03/23] fix: omega_surf crashed with ITER_MAX = 0

---
 neutralocean/surface/omega.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 2caf8e3..af114f8 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -375,6 +375,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     # Note: the surface exists wherever p is non-nan.  The nan structure of s
     # and t is made to match that of p when the vertical solve step is done.
     Δp_RMS = 0.0  # ensure this is defined; needed if TOL_P_CHANGE_RMS == 0
+    iter_ = 0  # ensure this is defined; needed if ITER_MAX == 0
     for iter_ in range(1, ITER_MAX + 1):
         timer = time()
 
-- 
2.43.0


From d5c2c84ffe3e41f281110b334edb0a7e7470cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 04/23] fix: omega_surf diagnostics lost the last iteration's
 entries

---
 neutralocean/surface/omega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index af114f8..673e556 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -465,7 +465,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     if diags:
         # Trim diagnostics
         for k, v in d.items():
-            d[k] = v[0 : iter_ + (k in ("e_MAV", "e_RMS"))]
+            d[k] = v[0 : iter_ + 1]
 
     # Reshape (from 1D arrays) and put into DataArrays if appropriate
     s, t, p = (
-- 
2.43.0


From 2a97f8d99ba54bcd8a0c85ffa484a7e7a9babdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 05/23] fix: first difference read and wrote outside its arrays

---
 neutralocean/ppinterp/lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutralocean/ppinterp/lib.py b/neutralocean/ppinterp/lib.py
index 5e57af9..b98b348 100644
--- a/neutralocean/ppinterp/lib.py
+++ b/neutralocean/ppinterp/lib.py
@@ -11,9 +11,10 @@ def diff_1d_samesize(x):
     """
 
     d = np.empty(x.size, dtype=x.dtype)
-    for i in range(d.size):
+    for i in range(d.size - 1):
         d[i] = x[i + 1] - x[i]
-    d[-1] = np.nan
+    if d.size > 0:
+        d[-1] = np.nan
     return d
 
 
-- 
2.43.0


From 657fdba478fc89b65d602283161e4511f10ff2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 06/23] fix: neutral_trajectory starting outside the first
 cast's data returned a finite pressure

---
 neutralocean/traj.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neutralocean/traj.py b/neutralocean/traj.py
index 49c5c1d..8c804dd 100644
--- a/neutralocean/traj.py
+++ b/neutralocean/traj.py
@@ -3,7 +3,7 @@
 import numpy as np
 import numba as nb
 
-from neutralocean.ppinterp import make_pp, ppval_1_nonan_two
+from neutralocean.ppinterp import make_pp, ppval_1_nonan_two, ppval_1_two
 from neutralocean.eos.tools import make_eos
 from neutralocean.fzero import guess_to_bounds, brent
 from neutralocean.ppinterp import valid_range_1_two
@@ -279,8 +279,9 @@ def neutral_trajectory(
             # Evaluate S and T on first cast at p0
             Sppc = ppc_fn(Pc[k:K], Sc[k:K])
             Tppc = ppc_fn(Pc[k:K], Tc[k:K])
-            s[0], t[0] = ppval_1_nonan_two(p0, Pc[k:K], Sppc, Tppc)
-            p[0] = p0
+            s[0], t[0] = ppval_1_two(p0, Pc[k:K], Sppc, Tppc)
+            if np.isfinite(s[0]):
+                p[0] = p0
         else:
             # Make a neutral connection from previous bottle to the cast (S[c,:], T[c,:], P[c,:])
             s[c], t[c], p[c] = _ntp_bottle_to_cast(
-- 
2.43.0


From e5344ad63692788c893e6484b79f09733a694c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 07/23] fix: potential and anomaly surfaces given ref and
 isoval must not use the pin

---
 neutralocean/surface/isopycnal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index 09ef93b..7c16cf4 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -369,6 +369,7 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     # Error checking on (ref, isoval, pin_cast, pin_p), then convert this
     # selection to (ref, isoval) pair
     _check_ref(ans_type, ref, isoval, pin_cast, pin_p, S)
+    pinned = isoval is None  # otherwise `pin_cast` and `pin_p` are not used
     ref, isoval = _choose_ref_isoval(
         ans_type, ref, isoval, pin_cast, pin_p, eos, S, T, P, ppc_fn
     )
@@ -378,7 +379,7 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     timer = time()
     s, t, p = vertsolve(S, T, P, ref, isoval, TOL_P_SOLVER)
 
-    if pin_p is not None:  # pin_cast must also be valid
+    if pinned:  # pin_cast and pin_p must be valid
         # Adjust the surface at the pinning cast slightly, to match the pinning
         # pressure / depth.  This fixes small deviations of order `TOL_P_SOLVER`
         n = pin_cast
-- 
2.43.0


From dbe2b2b802f7a43f45f2426fa065592025e35268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 08/23] fix: a pin outside the cast's data gave a finite
 pressure with NaN salinity

---
 neutralocean/surface/isopycnal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index 7c16cf4..3f4157c 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -383,12 +383,12 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
         # Adjust the surface at the pinning cast slightly, to match the pinning
         # pressure / depth.  This fixes small deviations of order `TOL_P_SOLVER`
         n = pin_cast
-        p[n] = pin_p
         Sn, Tn, Pn = S[n], T[n], P[n]
         k, K = valid_range_1(Sn + Pn)  # Sn and Tn have same nan-structure
         Sppcn = ppc_fn(Pn[k:K], Sn[k:K])
         Tppcn = ppc_fn(Pn[k:K], Tn[k:K])
         s[n], t[n] = ppval_1_two(pin_p, Pn[k:K], Sppcn, Tppcn)
+        p[n] = pin_p if np.isfinite(s[n]) else np.nan
 
     d = dict()
     d["ref"] = ref
-- 
2.43.0


From 9d8cf4767ba600a5b95f2a5546818151ca1f7667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 09/23] fix: veronis used np.trapz, which numpy no longer has

---
 neutralocean/label.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index ce2b67b..72885b8 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -263,7 +263,8 @@ def _int_x_k(p, k, dp, P, Sppc, Tppc, eos_s_t):
 
     rs_, rt_ = eos_s_t(s_, t_, p_)
     y_ = rs_ * dsdp_ + rt_ * dtdp_
-    return np.trapz(y_, x=p_)
+    # Trapezoidal integration (np.trapz does not exist in numpy >= 2.4)
+    return np.sum((y_[1:] + y_[:-1]) * (p_[1:] - p_[:-1])) * 0.5
 
 
 # TODO
-- 
2.43.0


From c56d8536f60a84e2d76faa6fbeb372c781923c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 10/23] fix: graph.build_grid rejected sparse distance matrices

---
 neutralocean/grid/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neutralocean/grid/graph.py b/neutralocean/grid/graph.py
index bbf5456..97ea2f0 100644
--- a/neutralocean/grid/graph.py
+++ b/neutralocean/grid/graph.py
@@ -261,7 +261,11 @@ def sym_structure(A):
 
 def triu_if_sym(A):
     """Return upper triangle matrix if symmetric"""
-    if issymmetric(A):
+    if issparse(A):
+        sym = A.shape[0] == A.shape[1] and (A != A.T).nnz == 0
+    else:
+        sym = issymmetric(A)
+    if sym:
         return triu(A)
     else:
         return A
-- 
2.43.0


From 17d8031fc97a8729ac6060486c92e67037efb4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 11/23] fix: tripolar.build_grid crashed on padded distance
 arrays

---
 neutralocean/grid/tripolar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neutralocean/grid/tripolar.py b/neutralocean/grid/tripolar.py
index 0f5978b..842fd8f 100644
--- a/neutralocean/grid/tripolar.py
+++ b/neutralocean/grid/tripolar.py
@@ -145,12 +145,12 @@ def _build_edgedata(dims, data):
 
     nj, ni = dims
     v, u = data
-    v = np.broadcast_to(v, dims)
-    u = np.broadcast_to(u, dims)
-    if v.shape == (nj + 1, ni + 2):
+    if np.shape(v) == (nj + 1, ni + 2):
         v = v[:-1, 1:-1]
-    if u.shape == (nj + 1, ni + 2):
+    if np.shape(u) == (nj + 1, ni + 2):
         u = u[:-1, 1:-1]
+    v = np.broadcast_to(v, dims)
+    u = np.broadcast_to(u, dims)
 
     return np.concatenate((v.reshape(-1), u.reshape(-1)))
 
-- 
2.43.0


From ae2fbd2ae99329ae109da6535fe6b2ffcd1dfed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 12/23] fix: xarray inputs without a coordinate for the
 vertical dimension crashed

---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 4ab301e..d98849b 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -213,7 +213,7 @@ def _xr_in(S, vert_dim):
             return xr.full_like(S, 0)
         elif isinstance(vert_dim, int):
             vert_dim = S.dims[vert_dim]  # convert to str
-        return xr.full_like(S.isel({vert_dim: 0}).drop_vars(vert_dim), 0)
+        return xr.full_like(S.isel({vert_dim: 0}).drop_vars(vert_dim, errors="ignore"), 0)
     else:
         return None
 
-- 
2.43.0


From ccb2f702ad0cea05ca09ca04db434bdb23a1673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 13/23] fix: pin_cast dict was misread when its key order or a
 descending coordinate differed

---
 neutralocean/lib.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index d98849b..956e8da 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -353,11 +353,13 @@ def _process_pin_cast(pin_cast, S):
         wrap it into a 1-element tuple, so np.ravel_multi_index works
     Otherwise, just return the input `pin_cast`.
     """
-    # TODO: There must be a better way of doing this...
-    # One issue is this always rounds one way, whereas a "nearest" neighbour
-    # type behaviour would be preferred, as in xr.DataArray.sel
     if isinstance(pin_cast, dict):
-        return tuple(int(S.get_index(k).searchsorted(v)) for (k, v) in pin_cast.items())
+        # Follow the order of S's dimensions, not that of the dict's keys
+        return tuple(
+            int(S.get_index(k).get_indexer([pin_cast[k]], method="nearest")[0])
+            for k in S.dims
+            if k in pin_cast
+        )
     elif isinstance(pin_cast, int):
         return (pin_cast,)
     else:
-- 
2.43.0


From 489905f1dd28ba4908098ee416fb846b767dac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:59 +0000
Subject: [PATCH 14/23] fix: stabilize_ST left its inputs unchanged unless
 casts were contiguous in memory

---
 neutralocean/stability.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neutralocean/stability.py b/neutralocean/stability.py
index 933306f..b2c3c29 100644
--- a/neutralocean/stability.py
+++ b/neutralocean/stability.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.optimize import minimize
 
-from neutralocean.lib import _process_casts
+from neutralocean.lib import _process_casts, _process_vert_dim, xr_to_np
 from neutralocean.ppinterp import valid_range_1
 
 
@@ -157,6 +157,10 @@ def stabilize_ST(S, T, P, eos, **kw):
     verbose = kw.pop("verbose", True)
     options = kw.pop("options", {"maxiter" : 1000})
 
+    # Views of the inputs with the vertical dimension last, to be mutated
+    k = _process_vert_dim(vert_dim, S)
+    S_view, T_view = (np.moveaxis(xr_to_np(X), k, -1) for X in (S, T))
+
     S, T, P = _process_casts(S, T, P, vert_dim)
 
     hshape = S.shape[0:-1]
@@ -225,6 +229,9 @@ def stabilize_ST(S, T, P, eos, **kw):
                 ΔT = res.x[n:]
                 S[c][k:K] += ΔS
                 T[c][k:K] += ΔT
+                # `S` and `T` may be copies of the inputs, so ensure these are mutated
+                S_view[c][k:K] = S[c][k:K]
+                T_view[c][k:K] = T[c][k:K]
             else:
                 raise RuntimeError(f"Cast {c} stabilization failed.")
 
-- 
2.43.0


From 017ffb05f589b23849ad7738415ef06666df5f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:11 +0000
Subject: [PATCH 15/23] fix: grids without distances, or given as plain lists,
 must be accepted as documented

---
 neutralocean/ntp.py           | 12 +++++++-----
 neutralocean/surface/omega.py |  6 ++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index a6b9869..9193c7c 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -37,7 +37,7 @@ def ntp_epsilon_errors(s, t, p, grid, eos_s_t="gsw", grav=None, rho_c=None):
         dist = 1.0
     elif isinstance(grid, dict):
         edges = grid["edges"]
-        dist = grid.get("dist", 1.0)
+        dist = np.asarray(grid.get("dist", 1.0))
 
     eos_s_t = make_eos_s_t(eos_s_t, grav, rho_c)
 
@@ -108,8 +108,10 @@ def ntp_epsilon_errors_norms(
     # The actual distances will be handled in computing the norms
     e = ntp_epsilon_errors(s, t, p, {"edges": grid["edges"]}, eos_s_t)
 
-    area = grid["dist"] * grid["distperp"]  # Area [m^2] centred on edges
-
+    dist, distperp = (
+        np.asarray(grid.get(k, 1.0)) for k in ("dist", "distperp")
+    )
+    area = dist * distperp  # Area [m^2] centred on edges
 
     # L2 norm of vector [a_i], weighted by vector [w_i], is sqrt( sum( w_i * a_i^2 ) / sum( w_i ) )
     # L1 norm of vector [a_i], weighted by vector [w_i], is sum( w_i * |a_i| ) / sum( w_i )
@@ -124,8 +126,8 @@ def ntp_epsilon_errors_norms(
     #     area / dist^2 = distperp / dist,
     # and the numerator of L1 norm needs to multiply epsilon by
     #     area ./ dist = distperp.
-    e_RMS = np.sqrt(np.nansum(grid["distperp"] / grid["dist"] * e**2) / denom)
-    e_MAV = np.nansum(grid["distperp"] * abs(e)) / denom
+    e_RMS = np.sqrt(np.nansum(distperp / dist * e**2) / denom)
+    e_MAV = np.nansum(distperp * abs(e)) / denom
 
     return e_RMS, e_MAV
 
diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 673e556..77eae2b 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -241,7 +241,9 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
         pin_c = np.ravel_multi_index(pin_c, surf_shape)
 
     # Prepare grid ratios for matrix problem.
-    distratio = grid["distperp"] / grid["dist"]
+    distratio = np.asarray(grid.get("distperp", 1.0)) / np.asarray(
+        grid.get("dist", 1.0)
+    )
 
     # Pre-compute mixed layer
     if isinstance(p_ml, dict):
@@ -255,7 +257,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     p_ml = np.reshape(p_ml, -1)
 
     # Pre-calculate grid adjacency needed for Breadth First Search
-    edges = grid["edges"]
+    edges = tuple(np.asarray(x) for x in grid["edges"])
     indptr, indices = edges_to_csr(edges, N)
     bfsargs = (
         indptr,
-- 
2.43.0


From 4681c7d8fb59906fd03d07b48829b32ce2f22951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 16/23] fix: xgcm.build_grid used arguments that xgcm (0.10) no
 longer has

---
 neutralocean/grid/xgcm.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 22143d9..699c286 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -224,12 +224,10 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
     coords = {"i": np.arange(n), "j": np.arange(n), tile: np.arange(nf)}
     grid = xgcm.Grid(
         xr.Dataset(None, coords),
-        periodic=False,
+        padding="fill",
         face_connections=face_connections,
-        coords={
-            "X": {"center": "i", "left": "i", "right": "i"},
-            "Y": {"center": "j", "left": "j", "right": "j"},
-        },
+        coords={"X": {"center": "i"}, "Y": {"center": "j"}},
+        autoparse_metadata=False,
     )
 
     # Make linear indices for the whole domain: a DataArray of 0, 1, ... N-1.
@@ -252,8 +250,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["X"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (1, 0)},
-            boundary="fill",
+            padding_width={"ax1": (1, 0)},
+            padding="fill",
             fill_value=-1,
         )
 
@@ -266,8 +264,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["X"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (0, 1)},
-            boundary="fill",
+            padding_width={"ax1": (0, 1)},
+            padding="fill",
             fill_value=-1,
         )
 
@@ -285,8 +283,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["Y"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (1, 0)},
-            boundary="fill",
+            padding_width={"ax1": (1, 0)},
+            padding="fill",
             fill_value=-1,
         )
 
@@ -304,8 +302,8 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             idx,
             axis=[["Y"]],
             signature="(ax1:center)->(ax1:center)",
-            boundary_width={"ax1": (0, 1)},
-            boundary="fill",
+            padding_width={"ax1": (0, 1)},
+            padding="fill",
             fill_value=-1,
         )
 
-- 
2.43.0


From 54b10724b3b9c4da7f1d8601d1c18bfd7c87df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 17/23] fix: xgcm.build_grid attached i-direction distances to
 j-direction edges and vice versa

---
 neutralocean/grid/xgcm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 699c286..9c46f33 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -122,9 +122,9 @@ def build_grid(
     grid = dict()
 
     # Build list of pairs of adjacent nodes.  The first N entries are [m,n]
-    # where m is the local node and n is its neighbour in the j dimension.
+    # where m is the local node and n is its neighbour in the i dimension.
     # The second N entries are [m,n] where m is the local node and n is its
-    # neighbour in the i dimension.
+    # neighbour in the j dimension.
     a = np.tile(np.arange(N), 2)
     b = np.empty(N * 2, dtype=int)  # prealloc space
     b[:N] = im1.values.reshape(-1)
@@ -133,14 +133,14 @@ def build_grid(
     # Build list of distances between adjacent nodes, in the same order as the
     # pairs of nodes built by edges.
     dist = np.empty(N * 2, dtype=float)
-    dist[:N] = dyC.reshape(-1)
-    dist[N:] = dxC.reshape(-1)
+    dist[:N] = dxC.reshape(-1)
+    dist[N:] = dyC.reshape(-1)
 
     # Build list of distances of the faces between adjacent nodes, in the same
     # order as the pairs of nodes built by edges.
     distperp = np.empty(N * 2, dtype=float)
-    distperp[:N] = dxG.reshape(-1)  # dxG lives at same place as dyC
-    distperp[N:] = dyG.reshape(-1)  # dyG lives at same place as dxC
+    distperp[:N] = dyG.reshape(-1)  # dyG lives at same place as dxC
+    distperp[N:] = dxG.reshape(-1)  # dxG lives at same place as dyC
 
     # Trim out invalid edges, i.e. those for which one of the two nodes was
     # filled by `apply_as_grid_ufunc` to have a value of -1.
-- 
2.43.0


From c5ee5abc0855ba3dc0780d25e9347360cfb7fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 18/23] fix: xgcm.build_grid crashed on its default (scalar)
 distances

---
 neutralocean/grid/xgcm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 9c46f33..c1b8bfc 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -118,6 +118,9 @@ def build_grid(
 
     im1, jm1 = _build_im1_jm1(n, face_connections, dims, xsh, ysh)
     N = im1.size
+    dxC, dyC, dyG, dxG = (
+        np.broadcast_to(x, im1.shape) for x in (dxC, dyC, dyG, dxG)
+    )
 
     grid = dict()
 
-- 
2.43.0


From 3e828a7cd20cab0ef603ca0de9ed8b7b638c134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:32 +0000
Subject: [PATCH 19/23] fix: omega_surf crashed on, or truncated to integers,
 an integer initial surface

---
 neutralocean/surface/omega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 77eae2b..49e5a7c 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -333,7 +333,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
             )
         p_init = np.reshape(p_init, -1)  # now reshape to 1D
         pin_p = p_init[pin_c]
-        p = p_init.copy()
+        p = np.array(p_init, dtype=np.float64)  # copy; p_init may hold integers
 
         # Interpolate S and T onto the surface
         s, t = interp_two(p, P, S, T, 0)
-- 
2.43.0


From 306b575c46a42f1a5819f8f5a1839a70d0ce2a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 20/23] fix: val_at overwrote its input with NaN when given a
 negative int index

---
 neutralocean/lib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 956e8da..ad06eb6 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -185,8 +185,9 @@ def val_at(T, k):
     array([[  nan, 1000.], [4500., 4500.], [4500., 4500.]])
     """
     if isinstance(k, int) or T.ndim == 1:
-        # select the k'th element along the last dimension of T
-        Tk = T[..., k]
+        # select the k'th element along the last dimension of T, without
+        # making a view of T, since Tk is modified below
+        Tk = T[..., k].copy()
     elif T.ndim == k.ndim + 1:
         # if k[i,j] == 0, this will index T[i,j,-1] which will be nan, so T_bot[i,j] == nan.
         Tk = np.take_along_axis(T, k[..., None], -1).squeeze()
-- 
2.43.0


From cf2893d6204cdf09e4f1c319bbfb3e5838b36507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:24 +0000
Subject: [PATCH 21/23] fix: val_at crashed when a horizontal dimension has
 length one

---
 neutralocean/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index ad06eb6..8e794df 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -190,7 +190,7 @@ def val_at(T, k):
         Tk = T[..., k].copy()
     elif T.ndim == k.ndim + 1:
         # if k[i,j] == 0, this will index T[i,j,-1] which will be nan, so T_bot[i,j] == nan.
-        Tk = np.take_along_axis(T, k[..., None], -1).squeeze()
+        Tk = np.take_along_axis(T, k[..., None], -1).squeeze(-1)
     else:
         raise ValueError("T must be 1 dimensional or have 1 more dimension than k")
 
-- 
2.43.0


From b45af68480264fa72a945523ca480d24a14f0848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:14 +0000
Subject: [PATCH 22/23] fix: count_unstable examines the deepest bottle when
 interpolating

---
 neutralocean/stability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/stability.py b/neutralocean/stability.py
index b2c3c29..28e9e15 100644
--- a/neutralocean/stability.py
+++ b/neutralocean/stability.py
@@ -47,8 +47,9 @@ def count_unstable(S, T, P, **kw):
     else:
         eos_s_t = kw.get("eos_s_t")
 
+    # There are `nk - 1` pairs of adjacent bottles, but `nk` bottles.
     num_unstab = 0
-    for k in range(0, nk - 1):
+    for k in range(0, nk - 1 if interp_two is None else nk):
         if interp_two is None:
             p_avg = (P[..., k] + P[..., k + 1]) / 2
             σ1 = eos(S[..., k], T[..., k], p_avg)
-- 
2.43.0


From b98320339de2686d11e5c4f4a1ad1ee097592016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:09 +0000
Subject: [PATCH 23/23] fix: divergence crashed when the last nodes of the
 graph have no edges

---
 neutralocean/grid/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutralocean/grid/tools.py b/neutralocean/grid/tools.py
index 664cbcb..e508d56 100644
--- a/neutralocean/grid/tools.py
+++ b/neutralocean/grid/tools.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from neutralocean.lib import aggsum
 
 
@@ -14,7 +16,7 @@ def divergence(vector, edges, distperp=1.0, area=1.0):
     """
 
     a, b = edges
-    N = max(max(a), max(b)) + 1  # number of nodes
+    N = max(max(a) + 1, max(b) + 1, np.size(area))  # number of nodes
     e = vector * distperp
     divg = (aggsum(e, a, N) - aggsum(e, b, N)) / area
     return divg
-- 
2.43.0

