From db48cd3168b50a76b6269d96db8a9a995bc2f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 01/94] fix: qu2ho no longer clamps the caller's quaternions in
 place

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 7061a6a..126cea7 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -39,7 +39,7 @@ def qu2ho(qu: Tensor) -> Tensor:
         raise ValueError(f"Invalid quaternion shape {qu.shape}.")
     ho = torch.empty_like(qu[..., :3])
     # get the angle
-    angle = 2 * torch.acos(qu[..., 0:1].clamp_(min=-1.0, max=1.0))
+    angle = 2 * torch.acos(qu[..., 0:1].clamp(min=-1.0, max=1.0))
     # get the unit vector
     unit = qu[..., 1:] / torch.norm(qu[..., 1:], dim=-1, keepdim=True)
     ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
-- 
2.43.0


From ae5bb617cc77b6e873111b8d98639477eaa991a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 02/94] fix: qu2ho stays inside the homochoric ball for
 negative scalar part

---
 ebsdtorch/s2_and_so3/orientations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 126cea7..8886080 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -39,9 +39,10 @@ def qu2ho(qu: Tensor) -> Tensor:
         raise ValueError(f"Invalid quaternion shape {qu.shape}.")
     ho = torch.empty_like(qu[..., :3])
     # get the angle
-    angle = 2 * torch.acos(qu[..., 0:1].clamp(min=-1.0, max=1.0))
-    # get the unit vector
+    angle = 2 * torch.acos(torch.abs(qu[..., 0:1]).clamp(max=1.0))
+    # get the unit vector (q and -q are the same rotation: use the one with w >= 0)
     unit = qu[..., 1:] / torch.norm(qu[..., 1:], dim=-1, keepdim=True)
+    unit = torch.where(qu[..., 0:1] < 0, -unit, unit)
     ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
     # fix the case where the angle is zero
     ho[(angle.squeeze(-1) < 1e-8)] = 0.0
-- 
2.43.0


From 9c1fad6bb4a08c43d7dd5719a3113a5dda57c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 03/94] fix: om2qu keeps the relative axis signs of half turns

---
 ebsdtorch/s2_and_so3/orientations.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 8886080..d4e67df 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -122,11 +122,10 @@ def om2qu(matrix: Tensor) -> Tensor:
     qu[branch_4, 3] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
     qu[branch_4, 0] = branch_4_t * branch_4_t_rsqrt
 
-    # guarantee the correct axis signs
+    # guarantee the correct axis signs: the branches above yield the conjugate, and
+    # the antisymmetric part vanishes for half turns so it cannot supply the signs
+    qu[..., 1:] = torch.where(qu[..., 0:1] > 0, -qu[..., 1:], qu[..., 1:])
     qu[..., 0] = torch.abs(qu[..., 0])
-    qu[..., 1] = qu[..., 1].copysign((m21 - m12))
-    qu[..., 2] = qu[..., 2].copysign((m02 - m20))
-    qu[..., 3] = qu[..., 3].copysign((m10 - m01))
 
     return qu
 
-- 
2.43.0


From ab6f489e721ca3ff7f3300a62ff43149628e284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 04/94] fix: om2ax handles identity, half turns and any batch
 shape

---
 ebsdtorch/s2_and_so3/orientations.py | 33 +++++++++++-----------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index d4e67df..0df438f 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -150,29 +150,22 @@ def om2ax(matrix: Tensor) -> Tensor:
     # set the output with the same batch dimensions as the input
     axis = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
 
-    # Get the trace of the matrix
-    trace = matrix[..., 0, 0] + matrix[..., 1, 1] + matrix[..., 2, 2]
-
-    # find the angles
-    acos_arg = 0.5 * (trace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat theta/sin(theta) as 1
-    stable = theta > 0.001
-    axis[..., 0] = matrix[..., 2, 1] - matrix[..., 1, 2]
-    axis[..., 1] = matrix[..., 0, 2] - matrix[..., 2, 0]
-    axis[..., 2] = matrix[..., 1, 0] - matrix[..., 0, 1]
-    factor = torch.where(stable, 0.5 / torch.sin(theta), 0.5)
-    axis[..., :3] = factor[:, None] * axis[:, :3]
-
-    # normalize the axis
-    axis[..., :3] /= torch.norm(axis[:, :3], dim=-1, keepdim=True)
+    # the antisymmetric part of the matrix vanishes for half turns, so the axis is
+    # taken from the quaternion
+    qu = om2qu(matrix)
+    sin_half = torch.norm(qu[..., 1:], dim=-1, keepdim=True)
+    axis[..., :3] = qu[..., 1:] / sin_half
 
     # set the angle
-    axis[..., 3] = theta
+    axis[..., 3:4] = 2.0 * torch.atan2(sin_half, qu[..., 0:1])
+
+    # the axis of the identity is about z
+    mask_identity = sin_half[..., 0] == 0
+    axis[mask_identity] = torch.tensor(
+        [0, 0, 1, 0], dtype=matrix.dtype, device=matrix.device
+    )
 
-    return axis.view(batch_dim + (4,))
+    return axis
 
 
 @torch.jit.script
-- 
2.43.0


From 5bb7bf75c6323da727a22c5cbf545368a56240a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 05/94] fix: ax2om accepts any batch shape

---
 ebsdtorch/s2_and_so3/orientations.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 0df438f..11c4195 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -183,17 +183,14 @@ def ax2om(axis_angle: Tensor) -> Tensor:
         raise ValueError(f"Invalid axis-angle shape {axis_angle.shape}.")
 
     batch_dim = axis_angle.shape[:-1]
-    data_n = int(torch.prod(torch.tensor(batch_dim)))
-
-    # set the output
-    matrices = torch.empty(
-        batch_dim + (3, 3), dtype=axis_angle.dtype, device=axis_angle.device
-    )
 
     theta = axis_angle[..., 3:4]
     omega = axis_angle[..., :3] * theta
 
-    matrices = torch.zeros((data_n, 3, 3), dtype=omega.dtype, device=omega.device)
+    # set the output
+    matrices = torch.zeros(
+        batch_dim + (3, 3), dtype=omega.dtype, device=omega.device
+    )
     matrices[..., 0, 1] = -omega[..., 2]
     matrices[..., 0, 2] = omega[..., 1]
     matrices[..., 1, 2] = -omega[..., 0]
@@ -204,7 +201,7 @@ def ax2om(axis_angle: Tensor) -> Tensor:
     skew_sq = torch.matmul(matrices, matrices)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05).squeeze()
+    stable = theta[..., 0] > 0.05
 
     theta_unstable = theta[~stable].unsqueeze(-1)
 
@@ -230,7 +227,7 @@ def ax2om(axis_angle: Tensor) -> Tensor:
         + prefactor2 * skew_sq[~stable]
     )
 
-    return matrices.view(batch_dim + (3, 3))
+    return matrices
 
 
 # @torch.jit.script
-- 
2.43.0


From 3dd06c2161710b1b3327c15c7abf6ed97f7faa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 06/94] fix: ho2ax_newton returns a unit axis

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 11c4195..028920f 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -651,7 +651,7 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
         update[torch.isnan(update)] = 0
         w_newton -= update
 
-    ax[~mask_zero, 0:3] = ho[~mask_zero] * torch.rsqrt(h[~mask_zero].unsqueeze(-1))
+    ax[~mask_zero, 0:3] = ho[~mask_zero] / h[~mask_zero].unsqueeze(-1)
     ax[~mask_zero, 3] = w_newton
 
     return ax
-- 
2.43.0


From f33eb07ec3bc88ea7717f499c749f78d8e54a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 07/94] fix: qu2ax returns the same rotation for negative
 scalar part

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 028920f..156b976 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -749,7 +749,7 @@ def qu2ax(qu: Tensor) -> Tensor:
     """
 
     ax = torch.empty_like(qu)
-    angle = 2 * torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0))
+    angle = 2 * torch.acos(torch.clamp(torch.abs(qu[..., 0]), min=-1.0, max=1.0))
 
     s = torch.where(
         qu[..., 0:1] != 0,
-- 
2.43.0


From bcdbcd881ae29ba2c27a73257c17db14f809c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 08/94] fix: qu2ro axis is defined at the identity

---
 ebsdtorch/s2_and_so3/orientations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 156b976..9afa2b6 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -793,6 +793,10 @@ def qu2ro(qu: Tensor) -> Tensor:
     eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
     mask_zero = torch.abs(qu[..., 0]) < eps
     ro[mask_zero, 3] = float("inf")
+
+    # the axis of the identity is about z
+    mask_identity = torch.sum(qu[..., 1:] ** 2, dim=-1) == 0
+    ro[mask_identity] = torch.tensor([0, 0, 1, 0], dtype=qu.dtype, device=qu.device)
     return ro
 
 
-- 
2.43.0


From ed5c03a8fd248d7de5e57fe253cf81144580fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 09/94] fix: qu_slerp takes any batch shape and nearly equal
 quaternions

---
 ebsdtorch/s2_and_so3/quaternions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 2f10e34..53e3d01 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -106,12 +106,14 @@ def qu_slerp(a: Tensor, b: Tensor, t: float) -> Tensor:
     """
     a = qu_norm(a)
     b = qu_norm(b)
-    cos_theta = torch.sum(a * b, dim=-1)
-    angle = torch.acos(cos_theta)
+    cos_theta = torch.sum(a * b, dim=-1, keepdim=True)
+    angle = torch.acos(torch.clamp(cos_theta, -1.0, 1.0))
     sin_theta = torch.sin(angle)
-    w1 = torch.sin((1 - t) * angle) / sin_theta
-    w2 = torch.sin(t * angle) / sin_theta
-    return (a.unsqueeze(-1) * w1 + b.unsqueeze(-1) * w2).squeeze(-1)
+    # the weights of equal quaternions are the limit as the angle goes to zero
+    same = sin_theta == 0
+    w1 = torch.where(same, 1 - t, torch.sin((1 - t) * angle) / sin_theta)
+    w2 = torch.where(same, t, torch.sin(t * angle) / sin_theta)
+    return a * w1 + b * w2
 
 
 @torch.jit.script
-- 
2.43.0


From 16ca2a696430f17fa89a9152d00b4862a7d6245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 10/94] fix: qu_angle is defined when the scalar part rounds
 above one

---
 ebsdtorch/s2_and_so3/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 53e3d01..26cab4a 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -280,4 +280,4 @@ def qu_angle(qu: Tensor) -> Tensor:
     Returns:
         tensor of shape (..., ) of rotation angles.
     """
-    return 2 * torch.acos(qu[..., 0])
+    return 2 * torch.acos(torch.clamp(qu[..., 0], -1.0, 1.0))
-- 
2.43.0


From 793d2c1dee4482f8829ffef9ada36cf2aa0ae39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 11/94] fix: quaternion_rotate_sets_sphere rotates antipodal
 points and takes any batch shape

---
 ebsdtorch/s2_and_so3/quaternions.py | 36 ++++++++++++++---------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 26cab4a..9c6a108 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -246,27 +246,25 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
         The quaternions, as tensor of shape (..., 4).
 
     """
-    # determine mask for numerical stability
-    valid = torch.abs(torch.sum(points_start * points_finish, dim=-1)) < 0.999999
-    # get the cross product of the two sets of points
-    cross = torch.cross(points_start[valid], points_finish[valid], dim=-1)
-    # get the dot product of the two sets of points
-    dot = torch.sum(points_start[valid] * points_finish[valid], dim=-1)
-    # get the angle
-    angle = torch.atan2(torch.norm(cross, dim=-1), dot)
-    # add tau to the angle if the cross product is negative
-    angle[angle < 0] += 2 * torch.pi
-    # set the output
-    out = torch.empty(
-        (points_start.shape[0], 4), dtype=points_start.dtype, device=points_start.device
+    # get the dot and cross products of the two sets of points
+    dot = torch.sum(points_start * points_finish, dim=-1, keepdim=True)
+    cross = torch.cross(points_start, points_finish, dim=-1)
+    # antipodal points: the cross product vanishes but any perpendicular axis will do
+    x, y, z = points_start[..., 0:1], points_start[..., 1:2], points_start[..., 2:3]
+    zero = torch.zeros_like(z)
+    perpendicular = torch.where(
+        torch.abs(z) < 0.9,
+        torch.cat([y, -x, zero], dim=-1),
+        torch.cat([zero, z, -y], dim=-1),
     )
-    out[valid, 0] = torch.cos(angle / 2)
-    out[valid, 1:] = torch.sin(angle / 2).unsqueeze(-1) * (
-        cross / torch.norm(cross, dim=-1, keepdim=True)
+    antipodal = dot < -0.999999
+    # 1 + dot and cross are 2 cos(angle / 2) times the scalar and vector parts
+    out = torch.where(
+        antipodal,
+        torch.cat([zero, perpendicular], dim=-1),
+        torch.cat([1.0 + dot, cross], dim=-1),
     )
-    out[~valid, 0] = 1
-    out[~valid, 1:] = 0
-    return out
+    return qu_norm(out)
 
 
 @torch.jit.script
-- 
2.43.0


From 745b2d25af2d5ea806d14b2d72ab7fccee66c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 12/94] fix: se3 log maps take any batch shape

---
 ebsdtorch/lie_algebra/se3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index d304a75..6790e0f 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -435,7 +435,7 @@ def se3_log_map_om(se3: Tensor) -> Tensor:
     omegas[..., 1] = se3[..., 0, 2] - se3[..., 2, 0]
     omegas[..., 2] = se3[..., 1, 0] - se3[..., 0, 1]
     factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = factor[..., None] * omegas
 
     v_inv = w_to_v_inv(omegas)
     tvecs = torch.matmul(v_inv, se3[..., :3, 3][..., None]).view(data_shape + (3,))
@@ -476,7 +476,7 @@ def se3_log_map_split(R: Tensor, tvec: Tensor) -> Tensor:
     omegas[..., 1] = R[..., 0, 2] - R[..., 2, 0]
     omegas[..., 2] = R[..., 1, 0] - R[..., 0, 1]
     factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = factor[..., None] * omegas
 
     v_inv = w_to_v_inv(omegas)
     tau = torch.matmul(v_inv, tvec[..., None]).view(data_shape + (3,))
-- 
2.43.0


From 61b6904c3098fa2c5c05df9b144349d3e45a8d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 13/94] fix: s2_equiv_laue returns the equivalent points and
 their inverses

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 4a312bf..ef69619 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -204,7 +204,7 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
         laue_id: laue group of points to move to fundamental zone
 
     Returns:
-        points in fundamental zone of shape (..., |laue_group|, 3)
+        equivalent points of shape (..., 2 * |laue_group|, 3), inversion included
 
     """
 
@@ -219,7 +219,7 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
 
-    return equivalent_points.reshape(data_shape[:-1] + (len(laue_group), 3))
+    return equivalent_points.reshape(data_shape[:-1] + (2 * len(laue_group), 3))
 
 
 @torch.jit.script
-- 
2.43.0


From fc8c35c673812d3f1427a6e5cdf987668de034b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 14/94] fix: spherical coordinate conversions take any batch
 shape

---
 ebsdtorch/s2_and_so3/sphere.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 81b14cb..2804d7e 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -32,7 +32,7 @@ def theta_phi_to_xyz(theta: Tensor, phi: Tensor) -> Tensor:
             torch.sin(theta) * torch.sin(phi),
             torch.cos(phi),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
@@ -51,10 +51,10 @@ def xyz_to_theta_phi(xyz: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.atan2(torch.norm(xyz[:, :2], dim=1), xyz[:, 2]),
-            torch.atan2(xyz[:, 1], xyz[:, 0]),
+            torch.atan2(torch.norm(xyz[..., :2], dim=-1), xyz[..., 2]),
+            torch.atan2(xyz[..., 1], xyz[..., 0]),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
-- 
2.43.0


From 838ab7bc0f51f7867f439cbf1e82d88e7b26dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 15/94] fix: inverse square projection maps the center of the
 square to the pole

---
 ebsdtorch/s2_and_so3/sphere.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 2804d7e..d3dffff 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -120,17 +120,10 @@ def inv_rosca_lambert(pts: Tensor) -> Tensor:
     x_new = torch.where(cond, x_abs, y_abs)
     y_new = torch.where(cond, y_abs, x_abs)
 
-    # only one case now
-    x_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.cos(pi * y_new / (4 * x_new))
-    )
-    y_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.sin(pi * y_new / (4 * x_new))
-    )
+    # only one case now (the center of the square is the pole)
+    ratio = torch.where(x_new == 0, 0.0, y_new / x_new)
+    x_hs = (2 * x_new / pi) * torch.sqrt(pi - x_new**2) * torch.cos(pi * ratio / 4)
+    y_hs = (2 * x_new / pi) * torch.sqrt(pi - x_new**2) * torch.sin(pi * ratio / 4)
     z_out = 1 - (2 * x_new**2 / pi)
 
     # swap back and copy sign
-- 
2.43.0


From e4bd6af4fd7a63256f4ed8cc027cad4cbec23b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 16/94] fix: square to hemisphere maps the center of the square
 to the pole

---
 ebsdtorch/utils/rosca_lambert.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index 123528d..de72d38 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -48,6 +48,8 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
         * torch.cos((pi * a[~m]) / (4 * b[~m]))
     )
     output[~m, 2] = 1 - (2 * b[~m] ** 2 / pi)
+    # the center of the square is the pole
+    output[(a == 0) & (b == 0), :2] = 0.0
     return output.reshape(shape_in + (3,))
 
 
@@ -79,17 +81,10 @@ def square_to_hemisphere_v2(x: Tensor) -> Tensor:
     x_new = torch.where(cond, x_abs, y_abs)
     y_new = torch.where(cond, y_abs, x_abs)
 
-    # only one case now
-    x_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.cos(pi * y_new / (4 * x_new))
-    )
-    y_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.sin(pi * y_new / (4 * x_new))
-    )
+    # only one case now (the center of the square is the pole)
+    ratio = torch.where(x_new == 0, 0.0, y_new / x_new)
+    x_hs = (2 * x_new / pi) * torch.sqrt(pi - x_new**2) * torch.cos(pi * ratio / 4)
+    y_hs = (2 * x_new / pi) * torch.sqrt(pi - x_new**2) * torch.sin(pi * ratio / 4)
     z_out = 1 - (2 * x_new**2 / pi)
 
     # swap back and copy sign
-- 
2.43.0


From 54f006692f6099f6b18d044f1e0bc10b7bcfab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 17/94] fix: hexagon to hemisphere maps to the unit sphere and
 the center to the pole

---
 ebsdtorch/utils/rosca_lambert.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index de72d38..3aa263e 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -196,7 +196,8 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
 
     # I_0 sextant equal-area bijection having swapped x & y
     factor = (3.0**0.25) * ((2.0 / pi) ** 0.5) * x_new
-    trig_arg = (y_new * pi) / (2.0 * (3.0**0.5) * x_new)
+    ratio = torch.where(x_new == 0, 0.0, y_new / x_new)
+    trig_arg = ratio * pi / (2.0 * (3.0**0.5))
     x_hs = factor * torch.cos(trig_arg)
     y_hs = factor * torch.sin(trig_arg)
 
@@ -208,8 +209,13 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 1]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
 
+    # from the disc to the hemisphere (Lambert azimuthal equal-area)
+    r_sq = x_out**2 + y_out**2
+    to_sphere = torch.sqrt(torch.clamp(2.0 - r_sq, min=0.0))
+    x_out, y_out = x_out * to_sphere, y_out * to_sphere
+
     # undo original swap and compute the z coordinate on the hemisphere
-    return torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    return torch.stack((y_out, x_out, 1.0 - r_sq), dim=-1)
 
 
 # import matplotlib.pyplot as plt
-- 
2.43.0


From 973b600893df0264748f371a3a7938ca9b5013cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 18/94] fix: kvectors hexagon to hemisphere maps to the unit
 sphere

---
 ebsdtorch/crystallography/kvectors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 7a9e3a9..410cc04 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -102,8 +102,13 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 1]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
 
+    # from the disc to the hemisphere (Lambert azimuthal equal-area)
+    r_sq = x_out**2 + y_out**2
+    to_sphere = torch.sqrt(torch.clamp(2.0 - r_sq, min=0.0))
+    x_out, y_out = x_out * to_sphere, y_out * to_sphere
+
     # undo original swap and compute the z coordinate on the hemisphere
-    out = torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    out = torch.stack((y_out, x_out, 1.0 - r_sq), dim=-1)
 
     # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
     mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
-- 
2.43.0


From 06975ce7e36526cd75a57077a8607ddc5b117d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 19/94] fix: the sphere fundamental sector includes its
 boundary for every Laue group

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index ef69619..f50509a 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -49,7 +49,7 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     x, y, z = points[..., 0], points[..., 1], points[..., 2]
 
     eta = torch.atan2(y, x)
-    chi = torch.acos(z)
+    chi = torch.acos(torch.clamp(z, -1.0, 1.0))
 
     if laue_id == 1:  # triclinic
         cond = z >= 0.0
@@ -85,15 +85,15 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
         # where eta is over 45 degrees, subtract from 90 degrees
         cond = (
             torch.where(
-                eta.gt(PI_4),
+                eta.ge(PI_4),
                 chi
-                < torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))
+                <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.gt(0.0)
-            & eta.lt(PI_4 + EPS)
-            & chi.gt(0.0)
+            & eta.ge(0.0)
+            & eta.le(PI_4 + EPS)
+            & chi.ge(0.0)
         )
     else:
         raise ValueError(f"Laue id {laue_id} not in [1, 11]")
-- 
2.43.0


From b0477d4fcf4c6d260d65ee0d5b9546c84b81a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 20/94] fix: s2_to_fz_laue picks one equivalent point for
 points on the sector boundary

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index f50509a..c47b9b7 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -182,15 +182,10 @@ def s2_to_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     # find the points that are in the s2 fundamental zone
     cond = s2_in_fz_laue(equivalent_points, laue_id)
 
-    # # in cases of more than one true value, set the first one to true
-    # more_trues = torch.sum(cond, dim=-1) >= 2
-    # cond[more_trues, 1:] = False
+    # points on the boundary have several equivalents in the sector: take the first one
+    first = torch.argmax(cond.to(torch.int32), dim=-1)
 
-    # # in cases of no true values, set the first one to true
-    # non_true = torch.sum(cond, dim=-1) == 0
-    # cond[non_true, 0] = True
-
-    return equivalent_points[cond].reshape(data_shape)
+    return equivalent_points[torch.arange(N), first].reshape(data_shape)
 
 
 @torch.jit.script
-- 
2.43.0


From 43793726f6adc7ccfbe9fca91d9ae82fe17b70c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 21/94] fix: orientation symmetry operators act on the crystal
 side

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 2c8f401..7e80693 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -76,7 +76,7 @@ def ori_to_fz_laue(quats: Tensor, laue_id: int) -> Tensor:
     row_maximum_indices = torch.argmax(equivalent_quaternions_real, dim=-1)
 
     # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
-    output = qu_prod(quats.reshape(N, 4), laue_group[row_maximum_indices])
+    output = qu_prod(laue_group[row_maximum_indices], quats.reshape(N, 4))
 
     return output.reshape(data_shape)
 
@@ -100,7 +100,7 @@ def ori_equiv_laue(quats: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(quats.dtype).to(quats.device)
 
     # reshape so that quaternions is (N, 1, 4) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_quaternions = qu_prod(quats.reshape(N, 1, 4), laue_group.reshape(-1, 4))
+    equivalent_quaternions = qu_prod(laue_group.reshape(-1, 4), quats.reshape(N, 1, 4))
 
     return equivalent_quaternions.reshape(data_shape[:-1] + (len(laue_group), 4))
 
-- 
2.43.0


From 8cb088aae14a8b674813ce802c631bfe7d585b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 22/94] fix: each Laue group acts on the side of its own
 orientation in disorientations

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 7e80693..52ca9fb 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -385,11 +385,11 @@ def disorientation(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2: in
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -452,12 +452,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
-- 
2.43.0


From b962fe9bd4a05b4cb850495082e0262fc7a7c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 23/94] fix: each Laue group acts on the side of its own
 orientation in naive disorientations

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index dcbb1b0..a8b313e 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -50,11 +50,11 @@ def misori_to_fz_laue(qu: Tensor, laue_id_1: int, laue_id_2: int):
     laue_group_1 = laue_elements(laue_id_1).to(qu.dtype).to(qu.device)
     laue_group_2 = laue_elements(laue_id_2).to(qu.dtype).to(qu.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(qu.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(qu.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -119,11 +119,11 @@ def disorientation_naive(
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -186,12 +186,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
-- 
2.43.0


From afc19a68cee1f87eaba58158eb841ca021769479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 24/94] fix: disorientation angles keep the batch shape and are
 defined for equal orientations

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 52ca9fb..5026cf8 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -466,7 +466,9 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(cosine_half_angle)
+    return 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0)).reshape(
+        data_shape[:-1]
+    )
 
 
 @torch.jit.script
-- 
2.43.0


From f7bb5e6c100d52bdbf7e82ed38efaa2cbb43b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 25/94] fix: naive disorientation angles keep the batch shape
 and are defined for equal orientations

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index a8b313e..50486e3 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -200,4 +200,6 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(cosine_half_angle)
+    return 2.0 * torch.acos(torch.clamp(cosine_half_angle, max=1.0)).reshape(
+        data_shape[:-1]
+    )
-- 
2.43.0


From f8e7bb2a28819b17e790c40815a31fad3db68e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 26/94] fix: Laue group elements have double precision when
 scripted

---
 ebsdtorch/s2_and_so3/laue_generators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_generators.py b/ebsdtorch/s2_and_so3/laue_generators.py
index 6db1466..39c07c3 100644
--- a/ebsdtorch/s2_and_so3/laue_generators.py
+++ b/ebsdtorch/s2_and_so3/laue_generators.py
@@ -246,4 +246,8 @@ def laue_elements(laue_id: int) -> Tensor:
         LAUE_O,  #  11 - Cubic high
     ]
 
-    return LAUE_GROUPS[laue_id - 1]
+    elements = LAUE_GROUPS[laue_id - 1]
+
+    # scripted tensor literals pass through float32: restore the double precision values
+    # (the square of every component is a multiple of 1/4)
+    return torch.sign(elements) * torch.sqrt(torch.round(4.0 * elements**2) / 4.0)
-- 
2.43.0


From 806370b749e9034b715b49c8156d93fa90e2496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 27/94] fix: the poles and the lower azimuth bounds belong to
 the sphere fundamental sector

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index c47b9b7..4546248 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -49,24 +49,30 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     x, y, z = points[..., 0], points[..., 1], points[..., 2]
 
     eta = torch.atan2(y, x)
+    # the azimuth of the poles is arbitrary: use one inside the sector
+    eta = torch.where(
+        (torch.abs(x) <= EPS) & (torch.abs(y) <= EPS),
+        -PI_3 if laue_id == 6 or laue_id == 7 else 0.0,
+        eta,
+    )
     chi = torch.acos(torch.clamp(z, -1.0, 1.0))
 
     if laue_id == 1:  # triclinic
-        cond = z >= 0.0
+        cond = z >= -EPS
     elif laue_id == 2:  # monoclinic
-        cond = eta.ge(0.0) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(0.0 - EPS) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 3 or laue_id == 4:  # orthorhombic, tetragonal-low
-        cond = eta.ge(0.0) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(0.0 - EPS) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 5:  # tetragonal-high
-        cond = eta.ge(0.0) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(0.0 - EPS) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 6:  # trigonal-low
-        cond = eta.ge(PI_n23) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(PI_n23 - EPS) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 7:  # trigonal-high
-        cond = eta.ge(-PI_2) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-PI_2 - EPS) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 8:  # hexagonal-low
-        cond = eta.ge(0.0) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(0.0 - EPS) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 9:  # hexagonal-high
-        cond = eta.ge(0.0) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(0.0 - EPS) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 10:  # cubic-low
         # where eta is over 45 degrees, subtract from 90 degrees
         cond = (
@@ -77,7 +83,7 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.ge(0.0)
+            & eta.ge(0.0 - EPS)
             & eta.le(PI_2 + EPS)
             & chi.ge(0.0)
         )
@@ -91,7 +97,7 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.ge(0.0)
+            & eta.ge(0.0 - EPS)
             & eta.le(PI_4 + EPS)
             & chi.ge(0.0)
         )
-- 
2.43.0


From 4fe4fd771a80423588a955bd9200f7b0e42f0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 28/94] fix: spherical coordinate conversions invert each other
 (theta is the polar angle)

---
 ebsdtorch/s2_and_so3/sampling.py | 3 ++-
 ebsdtorch/s2_and_so3/sphere.py   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sampling.py b/ebsdtorch/s2_and_so3/sampling.py
index e001040..c041ea4 100644
--- a/ebsdtorch/s2_and_so3/sampling.py
+++ b/ebsdtorch/s2_and_so3/sampling.py
@@ -58,7 +58,8 @@ def s2_fibonacci(
     indices = torch.arange(n, dtype=torch.float64, device=device)
     theta = 2 * torch.pi * indices / phi
     phi = torch.acos(1 - 2 * (indices + epsilon) / (n - 1 + 2 * epsilon))
-    points = theta_phi_to_xyz(theta, phi)
+    # theta is the azimuth and phi the polar angle of the spiral
+    points = theta_phi_to_xyz(phi, theta)
     return points
 
 
diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index d3dffff..230f9ca 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -28,9 +28,9 @@ def theta_phi_to_xyz(theta: Tensor, phi: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.cos(theta) * torch.sin(phi),
+            torch.sin(theta) * torch.cos(phi),
             torch.sin(theta) * torch.sin(phi),
-            torch.cos(phi),
+            torch.cos(theta),
         ),
         dim=-1,
     )
-- 
2.43.0


From 669886a78becf97f0eff947be9a1721178b6bbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 29/94] fix: cube_to_rfz maps the cube onto the cubic zone and
 rfz_to_cube maps it back

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 5026cf8..9b361eb 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -270,7 +270,7 @@ def cube_to_rfz(
         # replace nans with 1 because we were at the origin
         factors[factors.isnan()] = 1
         # scale the sorted values
-        rfz_coords = torch.where(scales, sorted * factors, sorted)
+        rfz_coords = torch.where(scales, sorted / factors, sorted)
         # scatter the sorted values back to the original order
         rfz_coords = torch.scatter(rfz_coords, -1, indices, rfz_coords)
         # copy the sign of the original values
@@ -303,12 +303,12 @@ def rfz_to_cube(
         # same as above but with reciprocal scaling
         sorted, indices = torch.sort(rfz_abs, dim=-1, descending=False)
         scales = sorted[..., 2:3] < (sorted[..., 0:1] + sorted[..., 1:2]) / 2**0.5
-        # same factor but we divide by it
+        # same factor but we multiply by it
         factors = (
             torch.sum(rfz_abs, dim=-1, keepdim=True) * (2**0.5 - 1) / sorted[..., 2:3]
         )
         factors[factors.isnan()] = 1
-        cc = torch.where(scales, sorted / factors, sorted)
+        cc = torch.where(scales, sorted * factors, sorted)
         cc = torch.scatter(cc, -1, indices, cc)
         cc.copysign_(rfz)
         return cc
-- 
2.43.0


From 2c886fa76b5412bfdb0029efd1010073797a255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 30/94] fix: bruker_geometry_from_SE3 leaves the rotation
 matrix of its caller unchanged

---
 ebsdtorch/ebsd/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index e8f77db..0b01e13 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -115,8 +115,8 @@ def bruker_geometry_from_SE3(
 
     cos_sx = rotation_matrix[..., 1, 1]
     cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp(min=-1, max=1))
+    sx = torch.acos(cos_sx.clamp(min=-1, max=1))
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From 2a1753e2e61889946684806d99c9aa1768b29f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 31/94] fix: bruker_geometry_from_SE3 of the fitting module
 leaves the rotation matrix of its caller unchanged

---
 ebsdtorch/ebsd/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 3b48cdd..31fb19b 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -135,8 +135,8 @@ def bruker_geometry_from_SE3(
 
     cos_sx = rotation_matrix[..., 1, 1]
     cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp(min=-1, max=1))
+    sx = torch.acos(cos_sx.clamp(min=-1, max=1))
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From 7cd5e9b70d0cf697597466abfb109b92c3217bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 32/94] fix: spatial_fft_pc_fitter leaves the patterns of its
 caller unchanged

---
 ebsdtorch/ebsd/fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 31fb19b..090a609 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -390,7 +390,9 @@ def spatial_fft_pc_fitter(
             stride=virtual_binning,
         )
 
-    patterns -= patterns.view(B, -1).min(dim=-1, keepdim=True).values.view(B, 1, 1, 1)
+    patterns = patterns - patterns.view(B, -1).min(dim=-1, keepdim=True).values.view(
+        B, 1, 1, 1
+    )
     patterns /= patterns.view(B, -1).max(dim=-1, keepdim=True).values.view(B, 1, 1, 1)
 
     if metric == "dot":
-- 
2.43.0


From a66e2faf297bcc45dde045d8cd8b001cee99ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 33/94] fix: cleaning experiment patterns leaves the tensor
 given to the constructor unchanged

---
 ebsdtorch/ebsd/experiment_pats.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 0d0e4ae..4dc28d2 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -229,7 +229,7 @@ class ExperimentPatterns(Module):
         """
 
         # subtract the mean of each pixel from all patterns
-        self.patterns -= torch.mean(self.patterns, dim=0, keepdim=True)
+        self.patterns = self.patterns - torch.mean(self.patterns, dim=0, keepdim=True)
 
     def contrast_enhance_clahe(
         self,
@@ -269,12 +269,16 @@ class ExperimentPatterns(Module):
         if norm_type == "minmax":
             pat_mins = torch.min(self.patterns, dim=-1).values
             pat_maxs = torch.max(self.patterns, dim=-1).values
-            self.patterns -= pat_mins[..., None]
+            self.patterns = self.patterns - pat_mins[..., None]
             self.patterns /= 1e-4 + pat_maxs[..., None] - pat_mins[..., None]
         elif norm_type == "zeromean":
-            self.patterns -= torch.mean(self.patterns, dim=-1, keepdim=True)
+            self.patterns = self.patterns - torch.mean(
+                self.patterns, dim=-1, keepdim=True
+            )
         elif norm_type == "standard":
-            self.patterns -= torch.mean(self.patterns, dim=-1, keepdim=True)
+            self.patterns = self.patterns - torch.mean(
+                self.patterns, dim=-1, keepdim=True
+            )
             self.patterns /= torch.std(self.patterns, dim=-1, keepdim=True)
         else:
             raise ValueError(
-- 
2.43.0


From 498bd05bf7b181e4cc739b1385c78d67f62d17e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 34/94] fix: the master pattern simulation leaves the Monte
 Carlo weights of its caller unchanged

---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 02f248a..d5097d3 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -248,7 +248,7 @@ def ebsd_master_pattern(
     hkl_valid_fp = hkl_valid.to(kvectors.dtype)
 
     # normalize mc weights
-    mc_weights /= mc_weights.sum()
+    mc_weights = mc_weights / mc_weights.sum()
 
     # get depths_95 from the Monte Carlo weights
     energy_marginals_1d = mc_weights / mc_weights.sum(dim=1, keepdim=True)
-- 
2.43.0


From 2f98c1d4801b9c8e3e64ac85acddc3222a2e6830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 35/94] fix: MasterPattern.normalize leaves the tensor given to
 the constructor unchanged

---
 ebsdtorch/ebsd/master_pattern.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index b3d50cf..9ff7980 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -126,12 +126,16 @@ class MasterPattern(Module):
         if norm_type == "minmax":
             pat_mins = torch.min(self.master_pattern)
             pat_maxs = torch.max(self.master_pattern)
-            self.master_pattern -= pat_mins
+            self.master_pattern = self.master_pattern - pat_mins
             self.master_pattern /= 1e-4 + pat_maxs - pat_mins
         elif norm_type == "zeromean":
-            self.master_pattern -= torch.mean(self.master_pattern)
+            self.master_pattern = self.master_pattern - torch.mean(
+                self.master_pattern
+            )
         elif norm_type == "standard":
-            self.master_pattern -= torch.mean(self.master_pattern)
+            self.master_pattern = self.master_pattern - torch.mean(
+                self.master_pattern
+            )
             self.master_pattern /= torch.std(self.master_pattern)
         else:
             raise ValueError(
-- 
2.43.0


From eae34cbf9209e61d7e6c058e6b0028dedb7776eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 36/94] fix: ho2ax keeps rotations by small angles

---
 ebsdtorch/s2_and_so3/orientations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 9afa2b6..d99b05f 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -499,7 +499,9 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
         ],
         dim=-1,
     )
-    rot_is_identity = torch.abs(ho_norm_sq) < 1e-6
+    # the fit has no accuracy left for small angles: leading term of the series
+    ax[..., 3] = torch.where(ho_norm_sq < 1e-6, 2.0 * torch.sqrt(ho_norm_sq), w)
+    rot_is_identity = ho_norm_sq == 0
     # set the identity rotation
     ax[rot_is_identity] = 0
     ax[rot_is_identity, ..., 2] = 1.0
-- 
2.43.0


From 46c3b0f031cfca1f5057186b1627174be38c3da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 37/94] fix: ho2ax_reference keeps rotations by small angles

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index d99b05f..6bd4cf2 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -595,7 +595,7 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
 
     ax = torch.empty(ho.shape[:-1] + (4,), dtype=ho.dtype, device=ho.device)
 
-    rot_is_identity = torch.abs(ho_norm_sq.squeeze(-1)) < 1e-8
+    rot_is_identity = ho_norm_sq.squeeze(-1) == 0
     ax[rot_is_identity, 0:1] = 0.0
     ax[rot_is_identity, 1:2] = 0.0
     ax[rot_is_identity, 2:3] = 1.0
-- 
2.43.0


From bc750230dfb061d7b055b53373c6fc2a85415294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 38/94] fix: shortest arcs between nearly antipodal points
 reach the finish point

---
 ebsdtorch/s2_and_so3/quaternions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 9c6a108..1a8d5c2 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -257,7 +257,8 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
         torch.cat([y, -x, zero], dim=-1),
         torch.cat([zero, z, -y], dim=-1),
     )
-    antipodal = dot < -0.999999
+    tol = 1e-7 if points_start.dtype == torch.float64 else 1e-3
+    antipodal = (dot < 0) & (torch.norm(cross, dim=-1, keepdim=True) < tol)
     # 1 + dot and cross are 2 cos(angle / 2) times the scalar and vector parts
     out = torch.where(
         antipodal,
-- 
2.43.0


From 07d2435a8efe088682df973af1bec196e2b17628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 39/94] fix: space groups in their second setting can be
 generated

---
 ebsdtorch/crystallography/groups.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index cd73d5d..79cdb50 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -310,7 +310,7 @@ def read_sg_gen_string(
     # now check for special origin conditions (choices 1 and 2)
     if (gen_string[2 + 4 * gen_num] != "0") and sg_setting == 2:
         print("Special origin condition")
-        t = gen_string[2 + 4 * gen_num : (2 + 4 * gen_num) + 3]
+        t = gen_string[(2 + 4 * gen_num) + 1 : (2 + 4 * gen_num) + 4]
         translate_forward = torch.tensor(
             [
                 [1.0, 0.0, 0.0, -trans_map[t[0]]],
@@ -334,18 +334,18 @@ def read_sg_gen_string(
             torch.matmul(gens, translate_forward),
         )
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3]) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3]) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
-        gens[:, :, 3] = torch.fmod(1000 + gens[:, :, 3], 1.0)
+        gens[:, :3, 3] = torch.fmod(1000 + gens[:, :3, 3], 1.0)
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3] - 1.0) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3] - 1.0) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
     return gens
-- 
2.43.0


From f63d061a074fb2a2fda0c4da4ac996a7d7c2ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 40/94] fix: space group operators keep their homogeneous row

---
 ebsdtorch/crystallography/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index 79cdb50..787042f 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -473,7 +473,7 @@ def sg_operators(
                 if len(gens) >= target_ord:
                     break
 
-    gens[:, :, 3] = torch.fmod(100 + gens[:, :, 3], 1.0)
+    gens[:, :3, 3] = torch.fmod(100 + gens[:, :3, 3], 1.0)
 
     return gens
 
-- 
2.43.0


From 829b7288b936c24731b3722d9c1c6e0f3ec8e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 41/94] fix: space groups 149 to 155 and 194 get their own Laue
 group

---
 ebsdtorch/utils/symmetry_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/symmetry_classes.py b/ebsdtorch/utils/symmetry_classes.py
index 2d54b12..e3f17d0 100644
--- a/ebsdtorch/utils/symmetry_classes.py
+++ b/ebsdtorch/utils/symmetry_classes.py
@@ -7,13 +7,13 @@ def space_group_to_laue(space_group: int) -> int:
         raise ValueError("The space group must be between 1 and 230 inclusive.")
     if space_group > 206:
         laue_group = 11
-    elif space_group > 193:
+    elif space_group > 194:
         laue_group = 10
     elif space_group > 176:
         laue_group = 9
     elif space_group > 167:
         laue_group = 8
-    elif space_group > 155:
+    elif space_group > 148:
         laue_group = 7
     elif space_group > 142:
         laue_group = 6
-- 
2.43.0


From 704483136d4782f17c2464b27656dd7e65ae76a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 42/94] fix: cells get the point group, crystal system and Laue
 group of their space group

---
 ebsdtorch/crystallography/unit_cell.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index fa8e724..6b7de63 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -192,21 +192,15 @@ class Cell:
         self.sg_setting = sg_setting
 
         # automatically find the point group for the space group
-        pg_num = [i + 1 for i, sg in enumerate(sg_pg_beg) if sg_num <= sg]
-        if len(pg_num) == 0:
-            self.pg_num = 32
-        else:
-            self.pg_num = pg_num[0]
+        pg_num = [i + 1 for i, sg in enumerate(sg_pg_beg) if sg_num >= sg]
+        self.pg_num = pg_num[-1]
 
         # automatically find the crystal system for the space group
-        self.xtal_system = [i + 1 for i, sg in enumerate(sg_xt_beg) if sg_num <= sg]
-        if len(self.xtal_system) == 0:
-            self.xtal_system = 7
-        else:
-            self.xtal_system = self.xtal_system[0]
+        self.xtal_system = [i + 1 for i, sg in enumerate(sg_xt_beg) if sg_num >= sg]
+        self.xtal_system = self.xtal_system[-1]
 
         # automatically find the Laue group for the point group
-        self.laue_group = pg_to_laue[self.pg_num]
+        self.laue_group = pg_to_laue[self.pg_num - 1]
 
         self.a, self.b, self.c = map(
             lambda x: torch.tensor(x, device=device, dtype=torch.float64), abc
-- 
2.43.0


From b6f174ddb83f3d8f52ce17d63d4e7de6ed6cc741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 43/94] fix: trigonal space groups get the wave vector sampling
 of their point group

---
 ebsdtorch/crystallography/kvectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 410cc04..b458e3c 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -163,11 +163,11 @@ def kvectors_grid(
             if 143 <= sg <= 167:  # trigonal
                 if 143 <= sg <= 146:  # 3
                     stnum = 10
-                elif sg == 147 <= 155:  # bar3 and 32
+                elif 147 <= sg <= 155:  # bar3 and 32
                     stnum = 12
                 elif sg in [156, 158, 160, 161]:  # 3m
                     stnum = 14
-                elif sg == 157 | sg == 159:  # 3m
+                elif sg in [157, 159]:  # 3m
                     stnum = 15
                 elif sg in [162, 163]:  # bar3m
                     stnum = 17
-- 
2.43.0


From cab30bcb71b96911a37145d207975182c04b71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 44/94] fix: the second structure matrix of trigonal cells
 takes its angle in radians

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 6b7de63..655db6e 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -305,13 +305,13 @@ class Cell:
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-            x = 0.5 / torch.cos(torch.pi * 0.5 * self.alpha)
+            x = 0.5 / torch.cos(0.5 * self.alpha)
             y = torch.sqrt(1 - x * x)
             Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device).T
 
             x = (
                 2
-                * torch.sin(torch.pi * 0.5 * self.alpha)
+                * torch.sin(0.5 * self.alpha)
                 / torch.sqrt(torch.tensor(3.0, device=device))
             )
             y = torch.sqrt(1 - x * x)
-- 
2.43.0


From 417bda7f58b0d320b84c6ee94459250f78954f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 45/94] fix: reciprocal structure matrix is the inverse
 transpose of the direct one

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 655db6e..8f59ce2 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -300,8 +300,8 @@ class Cell:
             device=device,
         )
 
-        # 5) reciprocal structure matrix is the inverse of the direct structure matrix
-        self.rsm = torch.linalg.inv(self.dsm)
+        # 5) reciprocal structure matrix is the inverse transpose of the direct one
+        self.rsm = torch.linalg.inv(self.dsm).T
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-- 
2.43.0


From 0b63f6bed1e125668328ba8b101bf3845b20b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 46/94] fix: cross products can be returned in every space

---
 ebsdtorch/crystallography/unit_cell.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 8f59ce2..dc885d4 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -747,18 +747,22 @@ class Cell:
 
         if inspace == "d":
             r = vl * torch.cross(p, q, dim=-1)
-            if outspace == "d":
+            if outspace == "r":
+                return r
+            elif outspace == "d":
                 return torch.einsum("...i,ij->...j", r, self.rmt)
             elif outspace == "c":
                 return torch.einsum("ij,...j->...i", self.rsm, r)
         elif inspace == "r":
             r = torch.cross(p, q, dim=-1) / vl
-            if outspace == "r":
+            if outspace == "d":
+                return r
+            elif outspace == "r":
                 return torch.einsum("...i,ij->...j", r, self.dmt)
             elif outspace == "c":
                 return torch.einsum("ij,...j->...i", self.dsm, r)
         elif inspace == "c":
-            return torch.cross(p, q, dim=-1)
+            return self.transform_space(torch.cross(p, q, dim=-1), "c", outspace)
 
         raise ValueError(f"Invalid space transformation: from {inspace} to {outspace}")
 
-- 
2.43.0


From 6c02ce5e1b3c79d40578eb1483df727ea48048b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 47/94] fix: second rhombohedral structure matrix puts the
 threefold axis along z

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index dc885d4..235dd8e 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -307,7 +307,7 @@ class Cell:
         if self.xtal_system == 5:
             x = 0.5 / torch.cos(0.5 * self.alpha)
             y = torch.sqrt(1 - x * x)
-            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device).T
+            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device)
 
             x = (
                 2
@@ -315,7 +315,7 @@ class Cell:
                 / torch.sqrt(torch.tensor(3.0, device=device))
             )
             y = torch.sqrt(1 - x * x)
-            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device).T
+            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device)
             self.dsm2 = torch.matmul(torch.matmul(My, Mx), self.dsm)
         else:
             self.dsm2 = None
-- 
2.43.0


From e6ecd0b13c58e5444c25a83c6676c9695d2a9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 48/94] fix: cell averages sum over the sites before dividing
 by the number of atoms

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 235dd8e..c94d442 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -355,7 +355,7 @@ class Cell:
 
         # 8) Compute average atomic number, weight and density
         self.average_atomic_number = (
-            torch.mean(
+            torch.sum(
                 self.atom_types.to(torch.float64) * self.atom_data[:, 3] * self.mults
             )
             / self.mults.sum()
@@ -363,7 +363,7 @@ class Cell:
 
         a_weights = atomic_weights[self.atom_types - 1].to(self.device)
         self.average_atomic_weight = (
-            torch.mean(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
+            torch.sum(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
         )
 
         # Density in g/cm^3
-- 
2.43.0


From 3006d05ee2d02111bdddfb8e03d056290821b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 49/94] fix: unknown output spaces are rejected by
 transform_space

---
 ebsdtorch/crystallography/unit_cell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index c94d442..f452fdb 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -537,6 +537,9 @@ class Cell:
         original_shape = t.shape
         t = t.reshape(-1, 3)
 
+        if outspace not in ("d", "r", "c"):
+            raise ValueError(f"Invalid transformation: from {inspace} to {outspace}")
+
         if inspace == "d":
             if outspace == "c":
                 d = torch.einsum("ij,...j->...i", self.dsm, t)
-- 
2.43.0


From 1aa85695d5bff5e89066189d82d545a7992b7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:15 +0000
Subject: [PATCH 50/94] fix: reflection lists reach every index the smallest
 spacing allows and hold no 000

---
 ebsdtorch/crystallography/unit_cell.py | 98 ++++----------------------
 1 file changed, 15 insertions(+), 83 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index f452fdb..ef1a4fd 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -869,44 +869,11 @@ class Cell:
         Returns:
             Tuple[int, int, int]: Maximum h, k, and l indices
         """
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
-        )
+        # |h| = |a . g| <= |a| |g| and |g| <= 1 / dmin for every reflection kept, in
+        # oblique cells too (where a single axis of reflections reaches less far)
+        max_h, max_k, max_l = [
+            int(torch.floor(x / dmin).item()) for x in (self.a, self.b, self.c)
+        ]
 
         return max_h, max_k, max_l
 
@@ -935,54 +902,17 @@ class Cell:
         else:
             filter_dmin = True
 
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
-        )
+        max_h, max_k, max_l = self.get_hkl_limits(dmin)
 
         if difference_table:  # differences of hkl (quadruple the size)
             h = torch.arange(
-                -2 * max_h + 1, 2 * max_h, device=self.device, dtype=torch.int64
+                -2 * max_h, 2 * max_h + 1, device=self.device, dtype=torch.int64
             )
             k = torch.arange(
-                -2 * max_k + 1, 2 * max_k, device=self.device, dtype=torch.int64
+                -2 * max_k, 2 * max_k + 1, device=self.device, dtype=torch.int64
             )
             l = torch.arange(
-                -2 * max_l + 1, 2 * max_l, device=self.device, dtype=torch.int64
+                -2 * max_l, 2 * max_l + 1, device=self.device, dtype=torch.int64
             )
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
@@ -991,12 +921,14 @@ class Cell:
             hkl = hkl[(hkl != 0).any(dim=-1)]
         else:  # normal reflection table
             # Create grid of h,k,l indices
-            h = torch.arange(-max_h + 1, max_h, device=self.device, dtype=torch.int64)
-            k = torch.arange(-max_k + 1, max_k, device=self.device, dtype=torch.int64)
-            l = torch.arange(-max_l + 1, max_l, device=self.device, dtype=torch.int64)
+            h = torch.arange(-max_h, max_h + 1, device=self.device, dtype=torch.int64)
+            k = torch.arange(-max_k, max_k + 1, device=self.device, dtype=torch.int64)
+            l = torch.arange(-max_l, max_l + 1, device=self.device, dtype=torch.int64)
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
-            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)[1:]  # remove (0,0,0)
+            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)
+            # remove (0,0,0)
+            hkl = hkl[(hkl != 0).any(dim=-1)]
 
         if filter_centering:
             # Check if reflections are allowed by lattice centering
-- 
2.43.0


From 8ce56f0cead29d66c440258362a163c1bfd07586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:56 +0000
Subject: [PATCH 51/94] fix: cells are built on the device asked for

The symmetry operators and the table of atomic weights stayed on the CPU, so the
constructor mixed devices for any other device.
---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index ef1a4fd..b6c3e80 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -321,7 +321,7 @@ class Cell:
             self.dsm2 = None
 
         # 7) get the space group operators: Tensor of shape (n_ops, 4, 4)
-        self.sg_ops = sg_operators(self.sg_num, self.sg_setting)
+        self.sg_ops = sg_operators(self.sg_num, self.sg_setting).to(device)
 
         # now we compute the orbit (set of unique positions) for each atom in
         # the asymmetric unit
@@ -361,7 +361,7 @@ class Cell:
             / self.mults.sum()
         )
 
-        a_weights = atomic_weights[self.atom_types - 1].to(self.device)
+        a_weights = atomic_weights.to(self.device)[self.atom_types - 1]
         self.average_atomic_weight = (
             torch.sum(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
         )
-- 
2.43.0


From e37e4cb6e3e60aac115d344fec169b88ddf60163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 52/94] fix: Laue group numbers outside 1..11 are refused (P18)

---
 ebsdtorch/s2_and_so3/laue_generators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ebsdtorch/s2_and_so3/laue_generators.py b/ebsdtorch/s2_and_so3/laue_generators.py
index 39c07c3..22e25d0 100644
--- a/ebsdtorch/s2_and_so3/laue_generators.py
+++ b/ebsdtorch/s2_and_so3/laue_generators.py
@@ -48,6 +48,8 @@ def get_laue_mult(laue_group: int) -> int:
         24,  # 10 - Cubic low
         48,  # 11 - Cubic high
     ]
+    if laue_group < 1 or laue_group > 11:
+        raise ValueError(f"Laue group {laue_group} not in [1, 11]")
     return LAUE_MULTS[laue_group - 1]
 
 
@@ -81,6 +83,9 @@ def laue_elements(laue_id: int) -> Tensor:
 
     """
 
+    if laue_id < 1 or laue_id > 11:
+        raise ValueError(f"Laue group {laue_id} not in [1, 11]")
+
     # sqrt(2) / 2 and sqrt(3) / 2
     R2 = 1.0 / (2.0**0.5)
     R3 = (3.0**0.5) / 2.0
-- 
2.43.0


From 7be022404959191c89c3cde7b43526d376c94089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 53/94] fix: space group numbers outside 1..230 are refused
 (P18)

---
 ebsdtorch/crystallography/groups.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index 787042f..399a50b 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -246,6 +246,9 @@ def read_sg_gen_string(
 
     """
 
+    if sg < 1 or sg > 230:
+        raise ValueError("Space group number must be between 1 and 230")
+
     # Create mapping for translation components
     trans_map = {
         "A": 1.0 / 6.0,
-- 
2.43.0


From 7c6b6cd9180e752a5678c3bfe21a9e7a97e993fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 54/94] fix: MasterPattern refuses Laue group numbers outside
 1..11 (P18)

---
 ebsdtorch/ebsd/master_pattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 9ff7980..0fe069d 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -81,6 +81,8 @@ class MasterPattern(Module):
 
         # set the laue group
         if laue_group is not None:
+            if laue_group < 1 or laue_group > 11:
+                raise ValueError(f"Laue group {laue_group} not in [1, 11]")
             self.laue_group = laue_group
         elif point_group is not None:
             self.laue_group = point_group_to_laue(point_group)
-- 
2.43.0


From 6fefd2423d1b096b764caabed246737ef63bf31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 55/94] fix: cells refuse unknown spaces and directions (P18)

---
 ebsdtorch/crystallography/unit_cell.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index b6c3e80..f593e70 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -529,6 +529,9 @@ class Cell:
         if t.shape[-1] != 3:
             raise ValueError("The last dimension of input tensor must be 3")
 
+        if inspace not in ("d", "r", "c") or outspace not in ("d", "r", "c"):
+            raise ValueError(f"Invalid transformation: from {inspace} to {outspace}")
+
         # Intercept the case where inspace and outspace are the same
         if inspace == outspace:
             return t
@@ -537,9 +540,6 @@ class Cell:
         original_shape = t.shape
         t = t.reshape(-1, 3)
 
-        if outspace not in ("d", "r", "c"):
-            raise ValueError(f"Invalid transformation: from {inspace} to {outspace}")
-
         if inspace == "d":
             if outspace == "c":
                 d = torch.einsum("ij,...j->...i", self.dsm, t)
@@ -588,6 +588,11 @@ class Cell:
         if t.shape[-1] != 3:
             raise ValueError("The last dimension of input tensor must be 3")
 
+        if space not in ("d", "r", "c"):
+            raise ValueError(f"Invalid space: {space}")
+        if direction not in ("on", "no"):
+            raise ValueError(f"Invalid direction: {direction}")
+
         # Reshape t to (..., 3) if it's (3,)
         original_shape = t.shape
         t = t.reshape(-1, 3)
-- 
2.43.0


From cbd8dd231d7cceca55773285024cb3640c5bf13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 56/94] fix: unknown scattering factor conventions are refused
 (P18)

---
 .../scattering_factors/scattering_factors_LVD_TCB.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
index c40e1ca..cb9ebc3 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
@@ -393,6 +393,9 @@ def scatter_factor_LVD(
         f_real = eval_LVD_fit(Z.view(-1, 1), S.view(1, -1)).view(1, N_Z, N_g)
         return f_real
 
+    elif return_type != "EMsoft":
+        raise ValueError(f"return_type must be 'EMsoft' or 'ITC', got {return_type}")
+
     else:
         # Create integration grid
         if sampling_type == "linspace":
-- 
2.43.0


From c7468a2588bd1bdea2357c480556816dca67bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 57/94] fix: unknown WK scattering factor conventions are
 refused (P18)

---
 .../scattering_factors/scattering_factors_WK.py              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index fd4b1f5..474a7ab 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -937,7 +937,10 @@ def scatter_factor_WK(
         # both will be done when computing Ucg
 
     # ITC: real-valued without gamma, without DWF
-    else:
+    elif return_type == "ITC":
         f_scatt = f_real
 
+    else:
+        raise ValueError(f"return_type must be 'EMsoft' or 'ITC', got {return_type}")
+
     return f_scatt
-- 
2.43.0


From 97bd9502d1466ef788c48410d9109e721d894645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 58/94] fix: unknown scales are refused when comparing
 scattering factors (P18)

---
 .../crystallography/scattering_factors/scattering_compare.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_compare.py b/ebsdtorch/crystallography/scattering_factors/scattering_compare.py
index 2956f18..c3bd30a 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_compare.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_compare.py
@@ -45,6 +45,8 @@ def compare_scattering_factors(
         g_vals = torch.linspace(
             g_range[0], g_range[1], num_points, device=device, dtype=dtype
         )  # in Å⁻¹
+    else:
+        raise ValueError(f"g_scale must be 'logspace' or 'linspace', got {g_scale}")
 
     # Prepare inputs for both methods
     Z_vals = torch.tensor([Z for _, Z, _ in elements], device=device, dtype=torch.int64)
-- 
2.43.0


From 21ed71fc047655cffb3eff72dd36d02506d36848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 59/94] fix: unknown distance metrics are refused (P18)

---
 ebsdtorch/utils/knn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index a630995..568f309 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -126,6 +126,9 @@ class ChunkedKNN:
             match_dtype (torch.dtype): The data type to use for matching.
             quantized (bool): Whether to use quantized arithmetic.
         """
+        if distance_metric not in ("angular", "euclidean", "manhattan"):
+            raise NotImplementedError(f"'{distance_metric}' not supported.")
+
         self.data_size = data_size
         self.query_size = query_size
         self.topk = topk
-- 
2.43.0


From 21baefc1132bf422da215d5d489ff071901785e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 60/94] fix: unknown units of mutual information are refused
 (P18)

---
 ebsdtorch/utils/mutual_information.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index c3f967f..b367da1 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -211,10 +211,12 @@ def binned_nmi(
         ent_x = -torch.sum(marginal_x_non_zero * torch.log2(marginal_x_non_zero))
         ent_y = -torch.sum(marginal_y_non_zero * torch.log2(marginal_y_non_zero))
         ent_joint = -torch.sum(joint_non_zero * torch.log2((joint_non_zero)))
-    else:
+    elif mode == "nats":
         ent_x = -torch.sum(marginal_x_non_zero * torch.log(marginal_x_non_zero))
         ent_y = -torch.sum(marginal_y_non_zero * torch.log(marginal_y_non_zero))
         ent_joint = -torch.sum(joint_non_zero * torch.log((joint_non_zero)))
+    else:
+        raise ValueError(f"Unknown units: {mode}")
 
     # formula with -1 as the values have not been multiplied by -1
     mi = ent_x + ent_y - ent_joint
-- 
2.43.0


From 05f9f1667de96b1cd27dd483009782ab4147c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 61/94] fix: unknown precisions of the harmonic weights are
 refused (P18)

---
 ebsdtorch/harmonics/wigner_d_logspace.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebsdtorch/harmonics/wigner_d_logspace.py b/ebsdtorch/harmonics/wigner_d_logspace.py
index f279fd9..b4eeaed 100644
--- a/ebsdtorch/harmonics/wigner_d_logspace.py
+++ b/ebsdtorch/harmonics/wigner_d_logspace.py
@@ -1058,6 +1058,9 @@ def csht_weights_half_pi(
         wig: Tensor of expanded Wigner d coefficients
 
     """
+    if precision not in ("single", "double"):
+        raise ValueError("precision must be 'single' or 'double'")
+
     dtype_fp = torch.float64 if precision == "double" else torch.float32
     dtype_int = torch.int64 if precision == "double" else torch.int32
 
@@ -1201,6 +1204,9 @@ def rsht_weights_half_pi(
         wig: Tensor of expanded Wigner d coefficients
 
     """
+    if precision not in ("single", "double"):
+        raise ValueError("precision must be 'single' or 'double'")
+
     dtype_fp = torch.float64 if precision == "double" else torch.float32
     dtype_int = torch.int64 if precision == "double" else torch.int32
 
-- 
2.43.0


From caed4054c49f70399dc99b2f71348512960e11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 62/94] fix: unknown transform types are refused (P18)

---
 ebsdtorch/harmonics/sht.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/harmonics/sht.py b/ebsdtorch/harmonics/sht.py
index 3857458..a76c0e0 100644
--- a/ebsdtorch/harmonics/sht.py
+++ b/ebsdtorch/harmonics/sht.py
@@ -214,6 +214,8 @@ class weightedDCST(Linear):
             )
         elif self.xform == "is":
             XF = idstMatrix(2 * L, device=self.device, dtype=self.dtype).t()
+        else:
+            raise ValueError("transform type must be 'c', 'ic', 's' or 'is'")
         self.weight.data = XF.t().data
         self.weight.requires_grad = False  # don't learn this!
 
-- 
2.43.0


From bdaf2effbbb5024b13088da9dad57e4068fcec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 63/94] fix: unknown extrapolation options are refused (P18)

---
 ebsdtorch/crystallography/ebsd_mc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_mc.py b/ebsdtorch/crystallography/ebsd_mc.py
index 9753a3d..168041b 100644
--- a/ebsdtorch/crystallography/ebsd_mc.py
+++ b/ebsdtorch/crystallography/ebsd_mc.py
@@ -417,8 +417,10 @@ class MonteCarloSimulator:
                 [torch.zeros_like(m)[..., :1], m, torch.zeros_like(m)[..., :1]], dim=-1
             )
             b = torch.cat([fp[..., :1], b, fp[..., -1:]], dim=-1)
-        else:  # linear extrapolation
+        elif extrapolate == "linear":  # linear extrapolation
             indices = torch.clamp(indices - 1, 0, m.shape[-1] - 1)
+        else:
+            raise ValueError(f"Unknown extrapolation: {extrapolate}")
 
         values = m.gather(-1, indices) * x + b.gather(-1, indices)
         return values.movedim(-1, dim)
@@ -448,6 +450,9 @@ class MonteCarloSimulator:
         xp = xp.movedim(dim, -1)
         fp = fp.movedim(dim, -1)
 
+        if extrapolate not in ("quadratic", "const", "error"):
+            raise ValueError(f"Unknown extrapolation: {extrapolate}")
+
         # Find indices for the middle points of quadratic interpolation
         indices = torch.searchsorted(xp.contiguous(), x.contiguous(), right=False)
         indices = torch.clamp(indices, 1, xp.shape[-1] - 2)
-- 
2.43.0


From 897e5f0e30c619138f628b2ce07123b7d44a914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:04 +0000
Subject: [PATCH 64/94] fix: unknown fitting metrics are refused before any
 work (P18)

---
 ebsdtorch/ebsd/fitting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 090a609..a8ba8f5 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -376,6 +376,9 @@ def spatial_fft_pc_fitter(
     if patterns.dim() != 4:
         raise ValueError("Pattern must be 4D (B, C, H, W).")
 
+    if metric not in ("dot", "mi"):
+        raise ValueError("Invalid metric.")
+
     B, C, H, W = patterns.shape
     assert C == 1, "Only single channel patterns are supported."
 
-- 
2.43.0


From d28f533df461f9f3ff8c1ccd2133970a879380cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:26 +0000
Subject: [PATCH 65/94] fix: importing the indexing module no longer runs its
 demonstration (P19)

---
 ebsdtorch/ebsd/indexing.py | 201 +++++++++++++++++++------------------
 1 file changed, 101 insertions(+), 100 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 5d7d02e..5bc79ac 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -476,103 +476,104 @@ def pca_dictionary_index_orientations(
     )
 
 
-import torch
-import kikuchipy as kp
-import numpy as np
-
-device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
-
-geom = EBSDGeometry(
-    detector_shape=(60, 60),
-    proj_center=(0.4221, 0.2179, 0.4954),
-).to(device)
-
-# create the master pattern
-kp_mp = kp.data.nickel_ebsd_master_pattern_small(
-    projection="lambert", hemisphere="both"
-)
-mp_nh = torch.from_numpy(kp_mp.data[0, :, :].astype(np.float32)).to(torch.float32)
-mp_sh = torch.from_numpy(kp_mp.data[1, :, :].astype(np.float32)).to(torch.float32)
-master_pattern = torch.concat((mp_nh, mp_sh), dim=-1)
-mp = MasterPattern(
-    master_pattern,
-    laue_group=11,
-).to(device)
-mp.normalize(norm_type="minmax")
-# mp.apply_clahe()
-
-# create the experiment patterns object
-exp_pats = (
-    torch.tensor(kp.data.ni_gain(number=5, allow_download=True).data)
-    .to(device)
-    .to(torch.float32)
-)
-
-exp_pats = ExperimentPatterns(
-    exp_pats,
-)
-
-# subtract background and do clahe
-exp_pats.standard_clean()
-# exp_pats.do_nlpar()
-
-# get radial mask
-from ebsdtorch.preprocessing.radial_mask import get_radial_mask
-
-mask = get_radial_mask(
-    shape=(60, 60),
-).to(device)
-# mask = None
-
-# # index the orientations
-# dictionary_index_orientations(
-#     mp,
-#     geom,
-#     exp_pats,
-#     dictionary_resolution_degrees=0.5,
-#     dictionary_chunk_size=4096,
-#     signal_mask=mask,
-#     virtual_binning=1,
-#     experiment_chunk_size=4096,
-#     match_dtype=torch.float16,
-# )
-
-# index the orientations
-pca_dictionary_index_orientations(
-    mp,
-    geom,
-    exp_pats,
-    dictionary_resolution_learn_deg=0.5,
-    dictionary_resolution_index_deg=0.2,
-    dictionary_chunk_size=4096,
-    signal_mask=mask,
-    virtual_binning=1,
-    experiment_chunk_size=4096,
-    match_dtype=torch.float16,
-    n_pca_components=500,
-)
-
-orientations = exp_pats.get_orientations().cpu().numpy()
-
-# plot the indexed orientations
-import numpy as np
-from orix import plot
-from orix.quaternion import Orientation
-from orix.vector import Vector3d
-from plotly.express import imshow
-
-# get the orientation colors
-pg_m3m = kp_mp.phase.point_group.laue
-ckey_m3m = plot.IPFColorKeyTSL(pg_m3m, direction=Vector3d.zvector())
-
-# save rgb image
-orientations = Orientation(orientations)
-rgb = ckey_m3m.orientation2color(orientations)
-rgb_byte = (rgb.reshape(149, 200, 3) * 255).astype(np.uint8)
-
-# plot the indexed orientations
-fig = imshow(rgb_byte)
-# set title
-fig.update_layout(title_text=f"Scan {1}")
-
-fig.show()
+if __name__ == "__main__":
+    import torch
+    import kikuchipy as kp
+    import numpy as np
+
+    device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
+
+    geom = EBSDGeometry(
+        detector_shape=(60, 60),
+        proj_center=(0.4221, 0.2179, 0.4954),
+    ).to(device)
+
+    # create the master pattern
+    kp_mp = kp.data.nickel_ebsd_master_pattern_small(
+        projection="lambert", hemisphere="both"
+    )
+    mp_nh = torch.from_numpy(kp_mp.data[0, :, :].astype(np.float32)).to(torch.float32)
+    mp_sh = torch.from_numpy(kp_mp.data[1, :, :].astype(np.float32)).to(torch.float32)
+    master_pattern = torch.concat((mp_nh, mp_sh), dim=-1)
+    mp = MasterPattern(
+        master_pattern,
+        laue_group=11,
+    ).to(device)
+    mp.normalize(norm_type="minmax")
+    # mp.apply_clahe()
+
+    # create the experiment patterns object
+    exp_pats = (
+        torch.tensor(kp.data.ni_gain(number=5, allow_download=True).data)
+        .to(device)
+        .to(torch.float32)
+    )
+
+    exp_pats = ExperimentPatterns(
+        exp_pats,
+    )
+
+    # subtract background and do clahe
+    exp_pats.standard_clean()
+    # exp_pats.do_nlpar()
+
+    # get radial mask
+    from ebsdtorch.preprocessing.radial_mask import get_radial_mask
+
+    mask = get_radial_mask(
+        shape=(60, 60),
+    ).to(device)
+    # mask = None
+
+    # # index the orientations
+    # dictionary_index_orientations(
+    #     mp,
+    #     geom,
+    #     exp_pats,
+    #     dictionary_resolution_degrees=0.5,
+    #     dictionary_chunk_size=4096,
+    #     signal_mask=mask,
+    #     virtual_binning=1,
+    #     experiment_chunk_size=4096,
+    #     match_dtype=torch.float16,
+    # )
+
+    # index the orientations
+    pca_dictionary_index_orientations(
+        mp,
+        geom,
+        exp_pats,
+        dictionary_resolution_learn_deg=0.5,
+        dictionary_resolution_index_deg=0.2,
+        dictionary_chunk_size=4096,
+        signal_mask=mask,
+        virtual_binning=1,
+        experiment_chunk_size=4096,
+        match_dtype=torch.float16,
+        n_pca_components=500,
+    )
+
+    orientations = exp_pats.get_orientations().cpu().numpy()
+
+    # plot the indexed orientations
+    import numpy as np
+    from orix import plot
+    from orix.quaternion import Orientation
+    from orix.vector import Vector3d
+    from plotly.express import imshow
+
+    # get the orientation colors
+    pg_m3m = kp_mp.phase.point_group.laue
+    ckey_m3m = plot.IPFColorKeyTSL(pg_m3m, direction=Vector3d.zvector())
+
+    # save rgb image
+    orientations = Orientation(orientations)
+    rgb = ckey_m3m.orientation2color(orientations)
+    rgb_byte = (rgb.reshape(149, 200, 3) * 255).astype(np.uint8)
+
+    # plot the indexed orientations
+    fig = imshow(rgb_byte)
+    # set title
+    fig.update_layout(title_text=f"Scan {1}")
+
+    fig.show()
-- 
2.43.0


From fe7c41687a54d07d2b11edcf05cb0d8a3566a47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:26 +0000
Subject: [PATCH 66/94] fix: importing the scattering factor comparison no
 longer runs it (P19)

---
 .../scattering_factors/scattering_compare.py  | 49 ++++++++++---------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_compare.py b/ebsdtorch/crystallography/scattering_factors/scattering_compare.py
index c3bd30a..cddce4a 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_compare.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_compare.py
@@ -243,29 +243,30 @@ def compare_scattering_factors(
     plt.show()
 
 
-# Run comparison
-elements = [
-    ("Li", 3, 4.4318),
-    ("Al", 13, 0.7194),
-    ("Ni", 28, 0.3280),
-    ("Cu", 29, 0.5073),
-    ("Au", 79, 0.5714),
-    ("Pb", 82, 1.9627),
-]
+if __name__ == "__main__":
+    # Run comparison
+    elements = [
+        ("Li", 3, 4.4318),
+        ("Al", 13, 0.7194),
+        ("Ni", 28, 0.3280),
+        ("Cu", 29, 0.5073),
+        ("Au", 79, 0.5714),
+        ("Pb", 82, 1.9627),
+    ]
 
-# # Run comparison (Debugging)
-# elements = [
-#     ("He", 2, 0.5),
-#     ("Li", 3, 0.5),
-#     ("Be", 4, 0.5),
-#     ("B", 5, 0.5),
-# ]
+    # # Run comparison (Debugging)
+    # elements = [
+    #     ("He", 2, 0.5),
+    #     ("Li", 3, 0.5),
+    #     ("Be", 4, 0.5),
+    #     ("B", 5, 0.5),
+    # ]
 
-compare_scattering_factors(
-    elements,
-    voltage_kV=20.0,
-    g_range=(0.01, 10.0),
-    num_points=100,
-    # g_scale="linspace",
-    g_scale="logspace",
-)
+    compare_scattering_factors(
+        elements,
+        voltage_kV=20.0,
+        g_range=(0.01, 10.0),
+        num_points=100,
+        # g_scale="linspace",
+        g_scale="logspace",
+    )
-- 
2.43.0


From bdfafb2d7d2348d08311c792bc16be4da0f23afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:26 +0000
Subject: [PATCH 67/94] fix: importing the Monte Carlo module no longer writes
 the environment (P19)

---
 ebsdtorch/crystallography/ebsd_mc.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ebsdtorch/crystallography/ebsd_mc.py b/ebsdtorch/crystallography/ebsd_mc.py
index 168041b..467fc81 100644
--- a/ebsdtorch/crystallography/ebsd_mc.py
+++ b/ebsdtorch/crystallography/ebsd_mc.py
@@ -1,14 +1,10 @@
 import numpy as np
 from typing import Dict, Any
-import os
 import torch
 import numpy as np
 from typing import Dict, Optional, Tuple
 from ebsdtorch.crystallography.unit_cell import Cell
 
-# Set the PYOPENCL_CTX environment variable
-os.environ["PYOPENCL_CTX"] = "0"
-
 try:
     import pyopencl as cl
     import pyopencl.array
@@ -193,7 +189,7 @@ __kernel void bse_sim_mc(
 
 class OpenCLMonteCarlo:
     def __init__(self, params: Dict[str, Any]):
-        self.ctx = cl.create_some_context()
+        self.ctx = cl.create_some_context(interactive=False, answers=["0"])
         self.queue = cl.CommandQueue(self.ctx)
         self.program = cl.Program(self.ctx, EBSD_MC_KERNEL).build()
 
-- 
2.43.0


From 9944fcf4ca4d32860936cc0f78bd95cb524efedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:30 +0000
Subject: [PATCH 68/94] fix: bruker_geometry_from_SE3 keeps the sign of the
 tilts (P11)

---
 ebsdtorch/ebsd/geometry.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 0b01e13..4a92ebd 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -113,10 +113,9 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp(min=-1, max=1))
+    # acos would lose the sign of the tilts
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From 2a07dbe730309f3209075bd14b9c4b4cb1f02be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:30 +0000
Subject: [PATCH 69/94] fix: bruker_geometry_from_SE3 of the fitting module
 keeps the sign of the tilts (P11)

---
 ebsdtorch/ebsd/fitting.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index a8ba8f5..ccf4250 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -133,10 +133,9 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp(min=-1, max=1))
+    # acos would lose the sign of the tilts
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From 6e40b9a1cf7ec1cf1bbb3f2bfa72eab0d461c7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:30 +0000
Subject: [PATCH 70/94] fix: detector pixel grid is spaced by the binning (P11)

---
 ebsdtorch/ebsd/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 4a92ebd..afc5383 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -482,14 +482,14 @@ class EBSDGeometry(Module):
             torch.meshgrid(
                 torch.linspace(
                     0.5 * (binning_fp[0] - 1),
-                    self.detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                    self.detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                     binned_shape[0],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
                 ),
                 torch.linspace(
                     0.5 * (binning_fp[1] - 1),
-                    self.detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                    self.detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                     binned_shape[1],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
-- 
2.43.0


From 30704374d778b89eab2fb54584f6e6fd0a68216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:30 +0000
Subject: [PATCH 71/94] fix: pixel grid of the hrebsd projection is spaced by
 the binning (P11)

---
 ebsdtorch/ebsd/project_hrebsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/project_hrebsd.py b/ebsdtorch/ebsd/project_hrebsd.py
index 0ffb98b..c92f9b1 100644
--- a/ebsdtorch/ebsd/project_hrebsd.py
+++ b/ebsdtorch/ebsd/project_hrebsd.py
@@ -60,14 +60,14 @@ def hrebsd_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,  # is always on model device
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,  # is always on model device
-- 
2.43.0


From 61bbb1ed4476ec2eb1c583d7aec2e36e27e7fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:30 +0000
Subject: [PATCH 72/94] fix: pixel grid of the geometry fitter is spaced by the
 binning (P11)

---
 ebsdtorch/ebsd/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index ccf4250..d266bbf 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -190,14 +190,14 @@ def get_3D_pixel_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
-- 
2.43.0


From fba425ab3fa176dc279832838fd9c588b2b10d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:30 +0000
Subject: [PATCH 73/94] fix: padded pixel grid of the geometry fitter continues
 the detector grid (P11)

---
 ebsdtorch/ebsd/fitting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index d266bbf..760c788 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -257,15 +257,15 @@ def get_3D_pixel_coords_with_periphery(
     pixel_coordinates = torch.stack(
         torch.meshgrid(
             torch.linspace(
-                0.5 * (binning_fp - 1) - h_pad_prior,
-                detector_shape[0] + h_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - binning * h_pad_prior,
+                detector_shape[0] - 1 + binning * h_pad_after - (0.5 * (binning_fp - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
-                0.5 * (binning_fp - 1) - w_pad_prior,
-                detector_shape[1] + w_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - binning * w_pad_prior,
+                detector_shape[1] - 1 + binning * w_pad_after - (0.5 * (binning_fp - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
-- 
2.43.0


From bc3b46a63bfd5f8c0b82f3feb59c914540b2329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:38 +0000
Subject: [PATCH 74/94] fix: interpolation uses the current master pattern at
 the requested binning (P12)

---
 ebsdtorch/ebsd/master_pattern.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 0fe069d..0969fe8 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -90,7 +90,8 @@ class MasterPattern(Module):
             self.laue_group = space_group_to_laue(space_group)
 
         self.master_pattern = master_pattern
-        self.master_pattern_binned = None
+        self.register_buffer("master_pattern_binned", None, persistent=False)
+        self.binning_factor = None
         self.factor_dict = {}
 
     def bin(
@@ -113,6 +114,7 @@ class MasterPattern(Module):
         self.master_pattern_binned = torch.nn.functional.avg_pool2d(
             self.master_pattern[None, None, ...], binning_factor, stride=binning_factor
         )[0, 0]
+        self.binning_factor = binning_factor
 
     def normalize(
         self,
@@ -143,6 +145,8 @@ class MasterPattern(Module):
             raise ValueError(
                 f"Invalid normalization method. Got {norm_type} but expected 'minmax', 'zeromean', or 'standard'."
             )
+        # the binned pattern is out of date
+        self.master_pattern_binned = None
 
     def interpolate(
         self,
@@ -174,7 +178,10 @@ class MasterPattern(Module):
 
         # blur the master pattern if virtual binning is used
         if virtual_binning > 1:
-            if self.master_pattern_binned is None:
+            if (
+                self.master_pattern_binned is None
+                or self.binning_factor != virtual_binning
+            ):
                 self.bin(virtual_binning)
             master_pattern_prep = self.master_pattern_binned
         else:
@@ -235,3 +242,5 @@ class MasterPattern(Module):
             n_bins=n_bins,
             grid_shape=grid_shape,
         )[0, 0]
+        # the binned pattern is out of date
+        self.master_pattern_binned = None
-- 
2.43.0


From 2c18d810732a4910d27dc3bc25f6cf7dece34360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:38 +0000
Subject: [PATCH 75/94] fix: orientations and coordinates set for some patterns
 are not written to the tensor given before (P12)

---
 ebsdtorch/ebsd/experiment_pats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 4dc28d2..816a065 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -54,6 +54,7 @@ class ExperimentPatterns(Module):
 
         self.phases = None
         self.orientations = None
+        self.spatial_coords = None
         self.inv_f_matrix = None
 
     def set_spatial_coords(
@@ -81,6 +82,7 @@ class ExperimentPatterns(Module):
                     f"Spatial coordinates must have the same number of patterns as the indices. "
                     + f"Got {spatial_coords.shape[0]} spatial coordinates and {indices.shape[0]} indices."
                 )
+            self.spatial_coords = self.spatial_coords.clone()
             self.spatial_coords[indices] = spatial_coords
 
     def get_spatial_coords(
@@ -145,6 +147,7 @@ class ExperimentPatterns(Module):
                 raise ValueError(
                     f"Orientations must be quaternions (w, x, y, z). Got {orientations.shape[1]} components."
                 )
+            self.orientations = self.orientations.clone()
             self.orientations[indices] = orientations
 
     def get_orientations(
-- 
2.43.0


From ce18c8e6b8b2337d98b239a816214cf4b81dbc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:38 +0000
Subject: [PATCH 76/94] fix: one deformation gradient for all patterns is
 accepted as documented (P12)

---
 ebsdtorch/ebsd/experiment_pats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 816a065..be56e91 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -191,7 +191,7 @@ class ExperimentPatterns(Module):
             f_matrix[:, 8] = 1.0
             f_matrix = f_matrix.reshape(self.n_patterns, 3, 3)
         else:
-            if f_matrix.shape[0] != self.n_patterns:
+            if f_matrix.shape[0] not in (1, self.n_patterns):
                 raise ValueError(
                     f"Deformation gradients must have the same number of patterns as the ExperimentPatterns object. "
                     + f"Got {f_matrix.shape[0]} gradients and {self.n_patterns} patterns."
@@ -202,7 +202,7 @@ class ExperimentPatterns(Module):
                 raise ValueError(
                     f"Deformation gradients must be 3x3 matrices. Got {f_matrix.shape[-2:]} components."
                 )
-        self.inv_f_matrix = f_matrix.view(self.n_patterns, 3, 3)
+        self.inv_f_matrix = f_matrix.reshape(-1, 3, 3).expand(self.n_patterns, 3, 3)
 
     def get_inv_f_matrix(
         self,
-- 
2.43.0


From 2634f8df3836ab596349538e1501c98ebc6b4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:38 +0000
Subject: [PATCH 77/94] fix: indexing results of several phases and of phases
 other than 0 can be combined (P12)

---
 ebsdtorch/ebsd/experiment_pats.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index be56e91..ea53ff5 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -423,8 +423,8 @@ class ExperimentPatterns(Module):
 
             # make a phase_id tensor
             phase_ids = torch.full(
-                self.n_patterns,
-                fill_value=-1,
+                (self.n_patterns,),
+                fill_value=255,
                 dtype=torch.uint8,
                 device=self.patterns.device,
             )
@@ -437,22 +437,25 @@ class ExperimentPatterns(Module):
             )
 
             for phase_id, (quaternions, metrics) in self.raw_indexing_results.items():
+                # only the top match of each phase
+                quaternions, metrics = quaternions[:, 0], metrics[:, 0]
                 if higher_is_better:
                     mask = metrics > best_metrics
                 else:
                     mask = metrics < best_metrics
-                best_metrics[mask] = metrics[mask]
+                best_metrics[mask] = metrics[mask].to(best_metrics.dtype)
                 phase_ids[mask] = phase_id
-                orientations[mask] = quaternions[mask]
+                orientations[mask] = quaternions[mask].to(orientations.dtype)
             self.phases = phase_ids
             self.orientations = orientations
             self.best_metrics = best_metrics
         else:
+            phase_id = list(self.raw_indexing_results.keys())[0]
             self.phases = torch.full(
                 (self.n_patterns,),
-                fill_value=list(self.raw_indexing_results.keys())[0],
+                fill_value=phase_id,
                 dtype=torch.uint8,
                 device=self.patterns.device,
             )
-            self.orientations = self.raw_indexing_results[0][0][:, 0]
-            self.best_metrics = self.raw_indexing_results[0][1][:, 0]
+            self.orientations = self.raw_indexing_results[phase_id][0][:, 0]
+            self.best_metrics = self.raw_indexing_results[phase_id][1][:, 0]
-- 
2.43.0


From f7795826398ac309427378557e104700b1a37dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:38 +0000
Subject: [PATCH 78/94] fix: the indices of a phase with a single pattern keep
 their dimension (P12)

---
 ebsdtorch/ebsd/experiment_pats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index ea53ff5..48d522c 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -367,7 +367,7 @@ class ExperimentPatterns(Module):
                 "Phases must be indexed before retrieving indices per phase."
             )
         return [
-            torch.nonzero(self.phases == i, as_tuple=False).squeeze()
+            torch.nonzero(self.phases == i, as_tuple=False).squeeze(-1)
             for i in range(self.phases.max().item() + 1)
         ]
 
-- 
2.43.0


From c6ecf637b61042320e03f395b9788b12a9fc3805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 79/94] fix: more nearest neighbours than entries of a data
 chunk can be asked for (P13)

---
 ebsdtorch/utils/knn.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index 568f309..bb21af1 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -175,6 +175,8 @@ class ChunkedKNN:
         # it is easier to track the current end index than the start index
         self.curr_end += data_chunk.shape[0]
         self.curr_start = self.curr_end - data_chunk.shape[0]
+        # a chunk cannot give more neighbors than it has entries
+        self.chunk_topk = min(self.topk, data_chunk.shape[0])
 
         # Quantize the data if needed
         if self.quantized and self.match_device.type == "cpu":
@@ -198,11 +200,11 @@ class ChunkedKNN:
 
         if self.quantized and self.match_device.type == "cpu":
             knn_dists_chunk, knn_inds_chunk = topk_quantized_data(
-                query, self.prepared_data, self.topk
+                query, self.prepared_data, self.chunk_topk
             )
         else:
             knn_dists_chunk, knn_inds_chunk = knn_batch(
-                self.prepared_data, query, self.topk, self.distance_metric
+                self.prepared_data, query, self.chunk_topk, self.distance_metric
             )
 
         # chunk indices -> global indices
@@ -238,11 +240,11 @@ class ChunkedKNN:
 
         if self.quantized and self.match_device.type == "cpu":
             knn_distances_chunk, knn_indices_chunk = topk_quantized_data(
-                query_chunk, self.prepared_data, self.topk
+                query_chunk, self.prepared_data, self.chunk_topk
             )
         else:
             knn_distances_chunk, knn_indices_chunk = knn_batch(
-                self.prepared_data, query_chunk, self.topk, self.distance_metric
+                self.prepared_data, query_chunk, self.chunk_topk, self.distance_metric
             )
 
         knn_indices_chunk += self.curr_start
-- 
2.43.0


From 3846f9745dec73c80d0f73409a23cac1f78984ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 80/94] fix: nearest neighbour indices hold every data size
 (P13)

---
 ebsdtorch/utils/knn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index bb21af1..3605b0f 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -149,9 +149,8 @@ class ChunkedKNN:
         self.quantized = quantized_via_ao
 
         self.big_better = self.distance_metric == "angular"
-        ind_dtype = torch.int64 if self.data_size < 2**31 else torch.int32
         self.knn_indices = torch.empty(
-            (self.query_size, self.topk), device=self.match_device, dtype=ind_dtype
+            (self.query_size, self.topk), device=self.match_device, dtype=torch.int64
         )
         self.knn_distances = torch.full(
             (self.query_size, self.topk),
-- 
2.43.0


From bd3f49a718f1409f47f3bd0e19f8b189bf9c3237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 81/94] fix: quantized nearest neighbours are only used for the
 angular distance they compute (P13)

---
 ebsdtorch/utils/knn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index 3605b0f..f120f4f 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -146,7 +146,8 @@ class ChunkedKNN:
             match_dtype = torch.float32
 
         self.match_dtype = match_dtype
-        self.quantized = quantized_via_ao
+        # the quantized product only gives the angular distance
+        self.quantized = quantized_via_ao and distance_metric == "angular"
 
         self.big_better = self.distance_metric == "angular"
         self.knn_indices = torch.empty(
-- 
2.43.0


From a87abd16673e78058c2c79e9d57fe55dd1d76b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 82/94] fix: patterns indexed in chunks keep their mean when
 that is asked for (P13)

---
 ebsdtorch/ebsd/indexing.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 5bc79ac..92b51b2 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -182,9 +182,10 @@ def dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # query the KNN object
                     knn.query_chunk(
@@ -444,9 +445,10 @@ def pca_dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # project the query chunk onto the PCA components
                     query_chunk = torch.matmul(query_chunk, pca_matrix)
-- 
2.43.0


From 6c114441403b6cc8f6531a06b4a6323e15dfa9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 83/94] fix: PCA indexing uses all of the requested components
 (P13)

---
 ebsdtorch/ebsd/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 92b51b2..0b9c72f 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -353,7 +353,7 @@ def pca_dictionary_index_orientations(
 
         # trim the eigenvectors to the number of components
         # they are returned in ascending order of eigenvalue
-        pca_matrix = eigenvectors[:, -n_pca_components : (-n_pca_components + 300)]
+        pca_matrix = eigenvectors[:, -n_pca_components:]
 
         # calc dictionary (if the learning and indexing resolutions are different)
         if dictionary_resolution_learn_deg != dictionary_resolution_index_deg:
-- 
2.43.0


From dda3d4bbcecd22ecec00c99568a1e6dfdf9dfcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 84/94] fix: PCA indexing bins the experimental patterns like
 the dictionary (P13)

---
 ebsdtorch/ebsd/indexing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 0b9c72f..ea70979 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -285,7 +285,7 @@ def pca_dictionary_index_orientations(
         if signal_mask is not None:
             n_pixels = signal_mask.sum().item()
         else:
-            n_pixels = experiment_patterns.n_pixels
+            n_pixels = experiment_patterns.n_pixels // virtual_binning**2
 
         # make an object to do the PCA
         pcacovmat = OnlineCovMatrix(
@@ -406,9 +406,10 @@ def pca_dictionary_index_orientations(
 
             # # retrieve and project the experiment patterns
             if experiment_chunk_size > experiment_patterns.n_patterns:
-                exp_pats = experiment_patterns.patterns.view(
-                    experiment_patterns.n_patterns, -1
-                )
+                exp_pats = experiment_patterns.get_patterns(
+                    torch.arange(experiment_patterns.n_patterns),
+                    binning=virtual_binning,
+                ).view(experiment_patterns.n_patterns, -1)
                 # query all the experiment patterns
                 # first apply the signal mask if provided
                 if signal_mask is not None:
-- 
2.43.0


From 4835a3974fb808c5ff0759df75836da074efa95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:52 +0000
Subject: [PATCH 85/94] fix: homochoric coordinates of a nearly unit quaternion
 without vector part (P05)

---
 ebsdtorch/s2_and_so3/orientations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 6bd4cf2..6f47786 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -46,6 +46,8 @@ def qu2ho(qu: Tensor) -> Tensor:
     ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
     # fix the case where the angle is zero
     ho[(angle.squeeze(-1) < 1e-8)] = 0.0
+    # a rounded identity has an angle but no axis
+    ho[torch.all(qu[..., 1:] == 0, dim=-1)] = 0.0
     return ho
 
 
-- 
2.43.0


From 0628245f0604251d3694861d4c92bd5afedcf158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:52 +0000
Subject: [PATCH 86/94] fix: axis-angle of a nearly unit quaternion without
 vector part (P05)

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 6f47786..d4a178b 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -765,7 +765,7 @@ def qu2ax(qu: Tensor) -> Tensor:
     ax[..., 3] = angle
 
     # fix identity quaternions to be about z axis
-    mask_identity = angle == 0.0
+    mask_identity = (angle == 0.0) | torch.all(qu[..., 1:] == 0, dim=-1)
     ax[mask_identity, 0] = 0.0
     ax[mask_identity, 1] = 0.0
     ax[mask_identity, 2] = 1.0
-- 
2.43.0


From cb861fb890bbcdcbe93f3a8b4f7b54555c93133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:52 +0000
Subject: [PATCH 87/94] fix: Clifford torus angles of quaternions with two zero
 components (P05)

---
 ebsdtorch/s2_and_so3/orientations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index d4a178b..9de20b0 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -903,6 +903,11 @@ def qu2cl(qu: Tensor) -> Tensor:
     cl[..., 4] = torch.atan(qu[..., 3] / qu[..., 0])
     cl[..., 5] = torch.atan(qu[..., 2] / qu[..., 1])
 
+    # the angle of a pair of zeros is free
+    w, x, y, z = torch.unbind(qu == 0, dim=-1)
+    free = torch.stack((w & x, y & z, w & y, x & z, w & z, x & y), dim=-1)
+    cl[free] = 0.0
+
     return cl
 
 
-- 
2.43.0


From e20909e1a895c6ec843e178a248dfb8f641a3001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:28 +0000
Subject: [PATCH 88/94] fix: gradient refinement ignored
 average_pattern_center=False (P17)

---
 ebsdtorch/ebsd/refining.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 9a4cf73..f76f6f6 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -287,6 +287,16 @@ def orientation_grad_refinement(
         binning=(virtual_binning, virtual_binning)
     ).view(-1, 3)
 
+    if not average_pattern_center:
+        # broadcast add the sample scan coordinates to the detector coords
+        detector_coords = detector_coords[None, :, :] + torch.cat(
+            [
+                experiment_patterns.spatial_coords[:, None, :],
+                torch.zeros_like(experiment_patterns.spatial_coords[:, None, [-1]]),
+            ],
+            dim=-1,
+        )
+
     # normalize the detector coordinates to be unit vectors
     detector_coords = detector_coords / detector_coords.norm(dim=-1, keepdim=True)
 
@@ -329,9 +339,14 @@ def orientation_grad_refinement(
 
             for step in range(n_iter):
                 # apply the state of the lattice to the detector coordinates
-                detector_coords_rotated = qu_apply(
-                    qu_current[:, None, :], detector_coords[None, :, :]
-                )
+                if average_pattern_center:
+                    detector_coords_rotated = qu_apply(
+                        qu_current[:, None, :], detector_coords[None, :, :]
+                    )
+                else:
+                    detector_coords_rotated = qu_apply(
+                        qu_current[:, None, :], detector_coords[indices_batch]
+                    )
 
                 # interpolate the master pattern
                 # shape (N_SIM_PATS, N_PIX)
-- 
2.43.0


From bfddfcbab6c930dbe3a480abb9e849158a61dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:25 +0000
Subject: [PATCH 89/94] fix: interpolation step of the scaled exponential
 integral table (P24)

---
 .../scattering_factors/scattering_factors_Hybrid.py             | 2 +-
 .../crystallography/scattering_factors/scattering_factors_WK.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index e10c00a..0668448 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -708,7 +708,7 @@ def RIH2_torch(X: Tensor) -> Tensor:
     idx = (200.0 / X).floor().long()
     idx = torch.clamp(idx, 0, len(rih2_table) - 2)
     sig = rih2_table[idx] + 200.0 * (rih2_table[idx + 1] - rih2_table[idx]) * (
-        1.0 / X - 0.5e-3 * idx
+        1.0 / X - 5.0e-3 * idx
     )
     return sig
 
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 474a7ab..1dae4ee 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -542,7 +542,7 @@ def RIH2_torch(X: Tensor) -> Tensor:
     idx = (200.0 / X).floor().long()
     idx = torch.clamp(idx, 0, len(rih2_table) - 2)
     sig = rih2_table[idx] + 200.0 * (rih2_table[idx + 1] - rih2_table[idx]) * (
-        1.0 / X - 0.5e-3 * idx
+        1.0 / X - 5.0e-3 * idx
     )
     return sig
 
-- 
2.43.0


From 4d99c269050c448eb8be5e512b168f61a0f05422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:25 +0000
Subject: [PATCH 90/94] fix: hybrid scattering factors take reciprocal lengths
 without the 2 pi factor (P24)

---
 ebsdtorch/crystallography/diffraction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index c75ac2d..0125214 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -285,8 +285,9 @@ def calc_helper_bloch_formalism(
             include_phonon=include_phonon,
         ).to(torch.complex64)
     elif scatter_factor == "Hybrid":
+        # the hybrid factors apply the 2pi prefactor themselves
         scatter_factors = scatter_factor_hybrid(
-            g=g_angstrom_twopi.float(),
+            g=(0.1 * g_unique).float(),
             Z=zs,
             thermal_sigma=u_angstrom_twopi.float(),
             voltage_kV=voltages_kV,
@@ -497,8 +498,9 @@ def calc_helper_scatter_matrix(
             include_phonon=include_phonon,
         ).to(torch.complex64)
     elif scatter_factor == "Hybrid":
+        # the hybrid factors apply the 2pi prefactor themselves
         scatter_factors = scatter_factor_hybrid(
-            g=g_angstrom_twopi.float(),
+            g=(0.1 * g_unique).float(),
             Z=zs,
             thermal_sigma=u_angstrom_twopi.float(),
             voltage_kV=voltages_kV,
-- 
2.43.0


From 761fd640f672e92ec563cde7ffbac5b29a492a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:17 +0000
Subject: [PATCH 91/94] fix: refinement of a batch of a single pattern (P15)

---
 ebsdtorch/ebsd/refining.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index f76f6f6..119775d 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -206,7 +206,7 @@ def orientation_grid_refinement(
                     align_corners=True,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
-                ).squeeze()
+                )
 
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
@@ -356,7 +356,7 @@ def orientation_grad_refinement(
                     align_corners=True,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
-                ).squeeze()
+                )
 
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
-- 
2.43.0


From 9d9520a55051ba5e8b79726e1a17040e24affbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:17 +0000
Subject: [PATCH 92/94] fix: gradient refinement kept the worse orientations
 and dropped the better ones (P15)

---
 ebsdtorch/ebsd/refining.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 119775d..9445dca 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -370,8 +370,11 @@ def orientation_grad_refinement(
                     "ij,ij->i", exp_pats.to(match_dtype), sim_pats.to(match_dtype)
                 )
 
+                # the orientations that these dot products belong to
+                qu_scored = qu_current.detach().clone()
+
                 if step == 0:
-                    initial_dots = -dot_products
+                    initial_dots = dot_products.detach()
 
                 # backpropagate the dot products
                 loss = -torch.mean(dot_products)
@@ -384,8 +387,8 @@ def orientation_grad_refinement(
                 with torch.no_grad():
                     qu_current /= qu_current.norm(dim=-1, keepdim=True)
 
-            # detach the quaternions from the graph
-            qu_current = qu_current.detach()
+            # the last step of the optimizer was not scored
+            qu_current = qu_scored
 
             # make the quaternions have positive scalar part
             qu_current *= (qu_current[..., :1] >= 0).float() * 2 - 1
@@ -395,8 +398,8 @@ def orientation_grad_refinement(
 
             # update the experiment patterns
             # experiment_patterns.set_orientations(qu_current.detach(), indices_batch)
-            # only update if the final loss is better than the initial loss
-            updates = dot_products < initial_dots
+            # only update if the final match is better than the initial match
+            updates = dot_products.detach() > initial_dots
             experiment_patterns.set_orientations(
                 qu_current[updates].detach(),
                 indices_batch[updates],
-- 
2.43.0


From 83dc0fee049bd842d3b70d3fa74684c62889729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:55 +0000
Subject: [PATCH 93/94] fix: refinement of scans without a pattern of one of
 the phases (P15)

---
 ebsdtorch/ebsd/refining.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 9445dca..4b6c512 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -133,6 +133,16 @@ def orientation_grid_refinement(
     all_dots = []
 
     for i, indices in enumerate(phase_indices):
+        # no pattern was indexed as this phase
+        if len(indices) == 0:
+            all_dots.append(
+                torch.zeros(
+                    (experiment_patterns.n_patterns, n_iter),
+                    device=detector_coords.device,
+                )
+            )
+            continue
+
         mp = master_patterns[i]
         pb = progressbar(
             list(torch.split(indices, batch_size)),
@@ -304,6 +314,10 @@ def orientation_grad_refinement(
     phase_indices = experiment_patterns.get_indices_per_phase()
 
     for i, indices in enumerate(phase_indices):
+        # no pattern was indexed as this phase
+        if len(indices) == 0:
+            continue
+
         mp = master_patterns[i]
         pb = progressbar(
             list(torch.split(indices, batch_size)),
-- 
2.43.0


From 833fe1cd0654ee600c33fb58603be267aa09379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:54 +0000
Subject: [PATCH 94/94] fix: one thermal displacement for several elements
 raised in the fitted scattering factors (P24)

---
 .../scattering_factors/scattering_factors_Hybrid.py             | 2 +-
 .../crystallography/scattering_factors/scattering_factors_WK.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index 0668448..d559369 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -835,7 +835,7 @@ def scatter_factor_hybrid(
     # Ensure inputs are 1D
     g = g.view(-1)  # [N_g]
     Z = Z.view(-1)  # [N_Z]
-    thermal_sigma = thermal_sigma.view(-1)  # [N_Z]
+    thermal_sigma = thermal_sigma.view(-1).expand(Z.shape[0])  # [N_Z]
     voltage_kV = voltage_kV.view(-1)  # [N_V]
 
     # Get dimensions
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 1dae4ee..2802dc7 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -668,7 +668,7 @@ def scatter_factor_WK(
     # Ensure inputs are 1D
     g = g.view(-1)  # [N_g]
     Z = Z.view(-1)  # [N_Z]
-    thermal_sigma = thermal_sigma.view(-1)  # [N_Z]
+    thermal_sigma = thermal_sigma.view(-1).expand(Z.shape[0])  # [N_Z]
     voltage_kV = voltage_kV.view(-1)  # [N_V]
 
     # Get dimensions
-- 
2.43.0

