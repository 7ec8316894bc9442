From 52805940d38a2e5050d88d78594841eb51997701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:27 +0000
Subject: [PATCH 01/36] fix: quaternion_from_euler no longer halves the
 caller's angles in place

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 9d3b613..f6b428a 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -746,9 +746,9 @@ def quaternion_from_euler(rpy, axes='sxyz'):
     if parity:
         aj = -aj
 
-    ai /= 2.0
-    aj /= 2.0
-    ak /= 2.0
+    ai = ai / 2.0
+    aj = aj / 2.0
+    ak = ak / 2.0
     ci = torch.cos(ai)
     si = torch.sin(ai)
     cj = torch.cos(aj)
-- 
2.43.0


From da7eb61516301b5a1e84b350e76c0239c97549e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:20 +0000
Subject: [PATCH 02/36] fix: quaternion_slerp leaves its arguments alone and
 handles close pairs one by one

---
 src/pytorch_kinematics/transforms/math.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index 9a315b7..d25a354 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -60,21 +60,19 @@ def quaternion_slerp(q1: torch.Tensor, q2: torch.Tensor, t: Union[float, torch.t
 
     # reverse the direction of q2 if q1 and q2 are not in the same hemisphere
     to_invert = cos_theta < 0
-    q2[to_invert] = -q2[to_invert]
-    cos_theta[to_invert] = -cos_theta[to_invert]
-
-    # If the quaternions are close, perform a linear interpolation
-    if torch.all(cos_theta > 1.0 - 1e-6):
-        return q1 + t * (q2 - q1)
+    q2 = torch.where(to_invert[..., None], -q2, q2)
+    cos_theta = torch.abs(cos_theta)
 
     # Ensure the angle is between 0 and pi
-    theta = torch.acos(cos_theta)
+    # If the quaternions are close, perform a linear interpolation instead
+    close = cos_theta > 1.0 - 1e-6
+    theta = torch.acos(torch.where(close, torch.zeros_like(cos_theta), cos_theta))
     sin_theta = torch.sin(theta)
 
     # Perform the interpolation
-    w1 = torch.sin((1.0 - t) * theta) / sin_theta
-    w2 = torch.sin(t * theta) / sin_theta
-    return w1[:, None] * q1 + w2[:, None] * q2
+    w1 = torch.where(close, 1.0 - t, torch.sin((1.0 - t) * theta) / sin_theta)
+    w2 = torch.where(close, t, torch.sin(t * theta) / sin_theta)
+    return w1[..., None] * q1 + w2[..., None] * q2
 
 
 def acos_linear_extrapolation(
-- 
2.43.0


From 1464bbd3eefc50d8259c72416d4a332e2e50eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:20 +0000
Subject: [PATCH 03/36] fix: batch_to_batch transforms each point and normal
 with its own transform

---
 src/pytorch_kinematics/transforms/transform3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 51f381e..73a6d92 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -332,7 +332,7 @@ class Transform3d:
 
         composed_matrix = self.get_matrix().transpose(-1, -2)
         if batch_to_batch:
-            points_out = linalg.batch_batch_product(points_batch, composed_matrix)
+            points_out = linalg.batch_batch_product(points_batch.squeeze(0), self.get_matrix())
         else:
             points_out = _broadcast_bmm(points_batch, composed_matrix)
         denom = points_out[..., 3:]  # denominator
@@ -367,7 +367,7 @@ class Transform3d:
         mat = self.inverse().get_matrix()[:, :3, :3]
 
         if batch_to_batch:
-            normals_out = linalg.batch_batch_product(normals, mat)
+            normals_out = linalg.batch_batch_product(normals, mat.transpose(-1, -2))
         else:
             normals_out = _broadcast_bmm(normals, mat)
 
-- 
2.43.0


From 70ac98c3eba055dff4faadaff08b3299696cc220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:20 +0000
Subject: [PATCH 04/36] fix: Transform3d.inverse inverts transforms that
 include scaling

---
 src/pytorch_kinematics/transforms/transform3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 73a6d92..e2f92a8 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -269,7 +269,8 @@ class Transform3d:
         Tinv = T.clone()
         R = T[:, :3, :3]
         t = T[:, :3, 3]
-        Tinv[:, :3, :3] = R.transpose(1, 2)
+        # not the transpose: the transform may include scaling
+        Tinv[:, :3, :3] = torch.linalg.inv(R)
         Tinv[:, :3, 3:] = -Tinv[:, :3, :3] @ t.unsqueeze(-1)
         return Tinv
 
-- 
2.43.0


From 91ebc634c7802eef979c4442cf3ff5db25580529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:41 +0000
Subject: [PATCH 05/36] fix: Translate, Scale, Rotate and RotateAxisAngle
 honour their dtype argument

---
 src/pytorch_kinematics/transforms/transform3d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index e2f92a8..1b3c63c 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -490,7 +490,7 @@ class Translate(Transform3d):
                 - A torch scalar
                 - A 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         xyz = _handle_input(x, y, z, dtype, device, "Translate")
         N = xyz.shape[0]
 
@@ -527,7 +527,7 @@ class Scale(Transform3d):
                 - torch scalar
                 - 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         xyz = _handle_input(x, y, z, dtype, device, "scale", allow_singleton=True)
         N = xyz.shape[0]
 
@@ -562,7 +562,7 @@ class Rotate(Transform3d):
             orthogonal_tol: tolerance for the test of the orthogonality of R
 
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         if not torch.is_tensor(R):
             R = torch.tensor(R, dtype=dtype, device=device)
         R = R.to(dtype=dtype).to(device=device)
@@ -628,7 +628,7 @@ class RotateAxisAngle(Rotate):
         # is for transforming column vectors. Therefore we transpose this matrix.
         # R will always be of shape (N, 3, 3)
         R = _axis_angle_rotation(axis, angle)
-        super().__init__(device=device, R=R)
+        super().__init__(device=device, R=R, dtype=dtype)
 
 
 def _handle_coord(c, dtype, device):
-- 
2.43.0


From d6bd4924a8f66ffb798e770f72e93e13a13575a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:41 +0000
Subject: [PATCH 06/36] fix: wrapping revolute joints does not turn unlimited
 joints into NaN

---
 src/pytorch_kinematics/ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 66962cd..a841cb4 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -601,6 +601,8 @@ class PseudoInverseIK(InverseKinematics):
         center = (low + high) / 2
         # compute the number of 2*pi shifts needed to bring q closest to the center of the limits
         n = torch.round((center - q) / (2 * math.pi))
+        # joints without finite limits have no center to move towards
+        n = torch.where(torch.isfinite(center), n, torch.zeros_like(n))
         # only apply to revolute joints
         q_wrapped = q.clone()
         q_wrapped[..., self._revolute_mask] = q[..., self._revolute_mask] + n[..., self._revolute_mask] * 2 * math.pi
-- 
2.43.0


From f9c935f7d6f2ddf45b5b81ee0ee0f57c2cc5ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:41 +0000
Subject: [PATCH 07/36] fix: SVD based IK step works for chains with fewer than
 six joints

---
 src/pytorch_kinematics/ik.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index a841cb4..4ac8e85 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -124,6 +124,7 @@ def _ik_step_kernel_svd(m_flat: torch.Tensor, target_pos: torch.Tensor, target_w
     prod = D / denom
     inverted = torch.diag_embed(prod)
     Vh = Vh[:, :m_sv, :]
+    U = U[:, :, :m_sv]
     total = Vh.transpose(1, 2) @ inverted @ U.transpose(1, 2)
     dq = total @ dx_w
     return dq, dx
-- 
2.43.0


From 6b7073097041305b0f3300794a62bfef5971224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:42 +0000
Subject: [PATCH 08/36] fix: IKSolution keeps converged_pos_any and
 converged_rot_any up to date

---
 src/pytorch_kinematics/ik.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 4ac8e85..21e2721 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -193,6 +193,8 @@ class IKSolution:
         self.err_rot = torch.where(not_converged, err_rot, self.err_rot)
         self.converged_pos = self.converged_pos | converged_pos
         self.converged_rot = self.converged_rot | converged_rot
+        self.converged_pos_any = self.converged_pos_any | converged_pos.any(dim=1)
+        self.converged_rot_any = self.converged_rot_any | converged_rot.any(dim=1)
         self.converged = self.converged | converged
         self.converged_any = self.converged_any | converged_any
 
@@ -635,6 +637,8 @@ class PseudoInverseIK(InverseKinematics):
         # Reset convergence so all retries are re-evaluated with the limit-enforced solutions
         sol.converged[:] = False
         sol.converged_any[:] = False
+        sol.converged_pos_any[:] = False
+        sol.converged_rot_any[:] = False
         sol.converged_pos[:] = False
         sol.converged_rot[:] = False
 
-- 
2.43.0


From 4dfc042b5d72fc190ce50050e5b6e6c092e4e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:42 +0000
Subject: [PATCH 09/36] fix: get_joints(exclude_fixed=False) includes the fixed
 joints

---
 src/pytorch_kinematics/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index d14d008..47e2901 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -407,10 +407,10 @@ class Chain:
     @staticmethod
     def _get_joints(frame, exclude_fixed=True):
         joints = []
-        if exclude_fixed and frame.joint.joint_type != "fixed":
+        if not (exclude_fixed and frame.joint.joint_type == "fixed"):
             joints.append(frame.joint)
         for child in frame.children:
-            joints.extend(Chain._get_joints(child))
+            joints.extend(Chain._get_joints(child, exclude_fixed))
         return joints
 
     def get_joints(self, exclude_fixed=True):
-- 
2.43.0


From 7d8bfae9114cd506fb4665dc0d8ba41e67afe79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 10/36] fix: SerialChain.jacobian accepts a dict of joint
 values as documented

---
 src/pytorch_kinematics/chain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 47e2901..e2f809f 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -769,7 +769,9 @@ class SerialChain(Chain):
 
         Returns: (B, 6, ndof) Jacobian, and optionally (B, 4, 4) EEF pose
         """
-        if not torch.is_tensor(th):
+        if isinstance(th, dict):
+            th = self.ensure_tensor(th)
+        elif not torch.is_tensor(th):
             th = torch.tensor(th, dtype=self.dtype, device=self.device)
         if len(th.shape) <= 1:
             th = th.reshape(1, -1)
-- 
2.43.0


From 419b996affa4626f08124bae4745a51d0245da49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 11/36] fix: joint value dicts may hold numpy arrays

---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index e2f809f..b50fd00 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -580,7 +580,7 @@ class Chain:
             joint_names = self.get_joint_parameter_names()
             for joint_name, joint_position in th_dict.items():
                 jnt_idx = joint_names.index(joint_name)
-                th[..., jnt_idx] = joint_position
+                th[..., jnt_idx] = torch.as_tensor(joint_position, device=self.device, dtype=self.dtype)
             if torch.any(torch.isnan(th)):
                 msg = "Missing values for the following joints:\n"
                 for joint_name, th_i in zip(self.get_joint_parameter_names(), th):
-- 
2.43.0


From 333d25bb61143cdb2f445ed2c27508c5c00d4951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 12/36] fix: SerialChain.forward_kinematics accepts a dict of
 plain numbers

---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index b50fd00..31dfff1 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -191,7 +191,7 @@ def get_batch_size(th):
         return th.shape[0]
     elif isinstance(th, dict):
         elem_shape = get_dict_elem_shape(th)
-        return elem_shape[0]
+        return elem_shape[0] if len(elem_shape) > 0 else 1
     elif isinstance(th, list):
         # Lists cannot be batched. We don't allow lists of lists.
         return 1
-- 
2.43.0


From e3db308faa94fdadbd2e28e290ef8ada8f7cbe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 13/36] fix: SerialChain defaults to the dtype and device of
 the chain it is taken from

---
 src/pytorch_kinematics/chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 31dfff1..fc2c75a 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -654,6 +654,9 @@ class SerialChain(Chain):
     """
 
     def __init__(self, chain, end_frame_name, root_frame_name="", **kwargs):
+        # the frames of the serial chain are those of the given chain, so they share its dtype and device
+        kwargs.setdefault('dtype', chain.dtype)
+        kwargs.setdefault('device', chain.device)
         root_frame = chain._root if root_frame_name == "" else chain.find_frame(root_frame_name)
         if root_frame is None:
             raise ValueError("Invalid root frame name %s." % root_frame_name)
-- 
2.43.0


From 55a86feaf845fa0cd9633d568069043465df8e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 14/36] fix: Frame keeps the children it is given

---
 src/pytorch_kinematics/frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/frame.py b/src/pytorch_kinematics/frame.py
index 0c35d84..35af508 100644
--- a/src/pytorch_kinematics/frame.py
+++ b/src/pytorch_kinematics/frame.py
@@ -100,8 +100,7 @@ class Frame(object):
         self.name = 'None' if name is None else name
         self.link = link if link is not None else Link()
         self.joint = joint if joint is not None else Joint()
-        if children is None:
-            self.children = []
+        self.children = [] if children is None else list(children)
 
     def __str__(self, prefix='', root=True):
         pointers = [tee] * (len(self.children) - 1) + [last]
-- 
2.43.0


From cc9cdf3f4cf969e4a0d66f1fa7efe52b2018452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:22 +0000
Subject: [PATCH 15/36] fix: continuous URDF joints have no position limits

---
 src/pytorch_kinematics/urdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 85d99fa..d868835 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -49,6 +49,9 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 limits = (j.limit.lower, j.limit.upper)
             except AttributeError:
                 limits = None
+            if j.type == 'continuous':
+                # no position limits; the limit element only gives velocity and effort
+                limits = None
             # URDF assumes symmetric velocity and effort limits
             try:
                 velocity_limits = (-j.limit.velocity, j.limit.velocity)
-- 
2.43.0


From 9813a03c39845a99e273d824f8287e9d5fb1a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 16/36] fix: robots that consist of a single link can be loaded

---
 src/pytorch_kinematics/sdf.py  | 1 +
 src/pytorch_kinematics/urdf.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 32ac177..a61206b 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -90,6 +90,7 @@ def build_chain_from_sdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    root_link = robot.links[0]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index d868835..70fa6a1 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -115,6 +115,7 @@ def build_chain_from_urdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    root_link = robot.links[0]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
-- 
2.43.0


From 0fd0a679b6c11a5c4b3c527c72bf38a68dc01e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 17/36] fix: SDF poses apply roll, pitch and yaw to the right
 axes

---
 src/pytorch_kinematics/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index a61206b..4dedbe9 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -14,7 +14,8 @@ def _convert_transform(pose):
     if pose is None:
         return tf.Transform3d()
     else:
-        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor(pose[3:]), "ZYX"), pos=pose[:3])
+        # roll, pitch, yaw about the fixed x, y, z axes, so the matrix is Rz(yaw) Ry(pitch) Rx(roll)
+        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor(pose[:2:-1]), "ZYX"), pos=pose[:3])
 
 
 def _convert_visuals(visuals):
-- 
2.43.0


From 36c55831409bad7803045c03d57cdf97db6b9c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 18/36] fix: unlimited MJCF joints are not limited to zero

---
 src/pytorch_kinematics/mjcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 3dc1857..eee621b 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -40,7 +40,7 @@ def _build_chain_recurse(m, parent_frame, parent_body):
                 joint_offset = tf.Transform3d(pos=joint.pos)
                 child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
-                                          limits=(joint.range[0], joint.range[1]))
+                                          limits=(joint.range[0], joint.range[1]) if joint.limited[0] else None)
             else:
                 child_joint = frame.Joint(body.name + "_fixed_joint")
             child_link = frame.Link(body.name, offset=tf.Transform3d(rot=body.quat, pos=body.pos))
-- 
2.43.0


From 0189368f327e1c0121a29dace66bfb53f434523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 19/36] fix: URDF links keep all their visuals, not only the
 first

---
 src/pytorch_kinematics/urdf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 70fa6a1..bf4f852 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -41,6 +41,12 @@ def _convert_visual(visual):
         return frame.Visual(v_tf, g_type, g_param)
 
 
+def _convert_visuals(link):
+    if not link.visuals:
+        return [_convert_visual(None)]
+    return [_convert_visual(v) for v in link.visuals]
+
+
 def _build_chain_recurse(root_frame, lmap, joints):
     children = []
     for j in joints:
@@ -67,7 +73,7 @@ def _build_chain_recurse(root_frame, lmap, joints):
                                             velocity_limits=velocity_limits, effort_limits=effort_limits)
             link = lmap[j.child]
             child_frame.link = frame.Link(link.name, offset=_convert_transform(link.origin),
-                                          visuals=[_convert_visual(link.visual)])
+                                          visuals=_convert_visuals(link))
             child_frame.children = _build_chain_recurse(child_frame, lmap, joints)
             children.append(child_frame)
     return children
@@ -123,7 +129,7 @@ def build_chain_from_urdf(data):
     root_frame = frame.Frame(root_link.name)
     root_frame.joint = frame.Joint()
     root_frame.link = frame.Link(root_link.name, _convert_transform(root_link.origin),
-                                 [_convert_visual(root_link.visual)])
+                                 _convert_visuals(root_link))
     root_frame.children = _build_chain_recurse(root_frame, lmap, joints)
     return chain.Chain(root_frame)
 
-- 
2.43.0


From f8a9b946a6414fc8b9e84e0c7e7b6d58bcd9f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 20/36] fix: SDF fixed joints need no axis

---
 src/pytorch_kinematics/sdf.py                | 3 ++-
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 4dedbe9..3d22d1d 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -57,7 +57,8 @@ def _build_chain_recurse(root_frame, lmap, joints):
             except AttributeError:
                 limits = None
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-                                            joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis.xyz, limits=limits)
+                                            joint_type=JOINT_TYPE_MAP[j.type],
+                                            axis=None if j.axis is None else j.axis.xyz, limits=limits)
             child_frame.link = frame.Link(link_c.name, offset=tf.Transform3d(),
                                           visuals=_convert_visuals(link_c.visuals))
             child_frame.children = _build_chain_recurse(child_frame, lmap, joints)
diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index 74d8fc7..ee45c3a 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -235,7 +235,7 @@ class Joint(xmlr.Object):
 xmlr.reflect(Joint, tag='joint', params=[
     name_attribute,
     xmlr.Attribute('type', str, False),
-    xmlr.Element('axis', Axis),
+    xmlr.Element('axis', Axis, False),
     xmlr.Element('parent', str),
     xmlr.Element('child', str),
     pose_element
-- 
2.43.0


From 3f22af68527721fcd45a5c09f843a18669f74b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 21/36] fix: SDF joints may give only one or none of their
 position limits

---
 src/pytorch_kinematics/sdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 3d22d1d..7e74f07 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -53,7 +53,9 @@ def _build_chain_recurse(root_frame, lmap, joints):
             t_p = _convert_transform(link_p.pose)
             t_c = _convert_transform(link_c.pose)
             try:
-                limits = (j.axis.limit.lower, j.axis.limit.upper)
+                # a bound that is not given does not limit the joint
+                lower, upper = j.axis.limit.lower, j.axis.limit.upper
+                limits = (-math.inf if lower is None else lower, math.inf if upper is None else upper)
             except AttributeError:
                 limits = None
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-- 
2.43.0


From 24ca7a34888487ea5972b7893a6989a5cbb298b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:34 +0000
Subject: [PATCH 22/36] fix: MJCF joints take their reference value into
 account

---
 src/pytorch_kinematics/mjcf.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index eee621b..6d4df62 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -1,6 +1,7 @@
 from typing import Union, Optional, Dict
 
 import mujoco
+import torch
 from mujoco._structs import _MjModelBodyViews as MjModelBodyViews
 
 import pytorch_kinematics.transforms as tf
@@ -25,6 +26,14 @@ def body_to_geoms(m: mujoco.MjModel, body: MjModelBodyViews):
     return visuals
 
 
+def _joint_offset(joint):
+    # a joint is in the configuration the model describes at its reference value, so it starts that far back
+    axis, ref = torch.tensor(joint.axis, dtype=torch.float32), torch.tensor(joint.qpos0[0], dtype=torch.float32)
+    if joint.type[0] == mujoco.mjtJoint.mjJNT_HINGE:
+        return tf.Transform3d(rot=tf.axis_and_angle_to_matrix_33(axis, -ref), pos=joint.pos)
+    return tf.Transform3d(pos=joint.pos - joint.qpos0[0] * joint.axis)
+
+
 def _build_chain_recurse(m, parent_frame, parent_body):
     parent_frame.link.visuals = body_to_geoms(m, parent_body)
     # iterate through all bodies that are children of parent_body
@@ -37,7 +46,7 @@ def _build_chain_recurse(m, parent_frame, parent_body):
             if n_joints == 1:
                 # Find the joint for this body, again assuming there's only one joint per body.
                 joint = m.joint(body.jntadr[0])
-                joint_offset = tf.Transform3d(pos=joint.pos)
+                joint_offset = _joint_offset(joint)
                 child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
                                           limits=(joint.range[0], joint.range[1]) if joint.limited[0] else None)
-- 
2.43.0


From bcaeafe176b485042f656182fd7e0c713306450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 23/36] fix: SDF joint axes given in the model frame are taken
 as such

---
 src/pytorch_kinematics/sdf.py                          | 10 +++++++++-
 .../urdf_parser_py/xml_reflection/core.py              |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 7e74f07..8af7b65 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -43,6 +43,14 @@ def _convert_visuals(visuals):
     return vlist
 
 
+def _joint_axis(axis, t_child):
+    if axis is None or not axis.use_parent_model_frame:
+        # given in the frame of the joint, which is that of the child link
+        return None if axis is None else axis.xyz
+    # given in the frame of the model, like the pose of the child link
+    return t_child.get_matrix()[0, :3, :3].T @ torch.tensor(axis.xyz, dtype=t_child.dtype)
+
+
 def _build_chain_recurse(root_frame, lmap, joints):
     children = []
     for j in joints:
@@ -60,7 +68,7 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 limits = None
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
                                             joint_type=JOINT_TYPE_MAP[j.type],
-                                            axis=None if j.axis is None else j.axis.xyz, limits=limits)
+                                            axis=_joint_axis(j.axis, t_c), limits=limits)
             child_frame.link = frame.Link(link_c.name, offset=tf.Transform3d(),
                                           visuals=_convert_visuals(link_c.visuals))
             child_frame.children = _build_chain_recurse(child_frame, lmap, joints)
diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 8659bde..c6bf014 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -153,6 +153,9 @@ class BasicType(ValueType):
         return str(value)
 
     def from_string(self, value):
+        if self.type is bool:
+            # bool() of any text that is not empty is True, "false" included
+            return value.strip().lower() in ('true', '1')
         return self.type(value)
 
 
-- 
2.43.0


From e3ba7979a691f65c7102a61cabcab428ef3e69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:34 +0000
Subject: [PATCH 24/36] fix: quaternion_angular_distance decides closeness for
 each pair rather than for the whole batch

---
 src/pytorch_kinematics/transforms/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index d25a354..9c25726 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -30,7 +30,7 @@ def quaternion_angular_distance(q1: torch.Tensor, q2: torch.Tensor) -> torch.Ten
     theta = 2.0 * torch.atan2(sin_half_theta, abs_dot)
 
     # theta for the ones that are close gets 0 and we don't care about them
-    close = quaternion_close(q1, q2)
+    close = 1.0 - torch.square(abs_dot) < 1e-4
     theta[close] = 0
     return theta
 
-- 
2.43.0


From b2adf92beada2cf855b876ae0c6e6e9a230a7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:59 +0000
Subject: [PATCH 25/36] fix: Transform3d.to(copy=True) copies the matrix

---
 src/pytorch_kinematics/transforms/transform3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 1b3c63c..a72d8c6 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -465,7 +465,7 @@ class Transform3d:
         other = self.clone()
         other.device = device
         other.dtype = dtype if dtype is not None else other.dtype
-        other._matrix = self._matrix.to(device=device, dtype=dtype)
+        other._matrix = other._matrix.to(device=device, dtype=dtype)
         return other
 
     def cpu(self):
-- 
2.43.0


From 86d26e08eae16bd473a5a371e5db9e42922d29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:59 +0000
Subject: [PATCH 26/36] fix: positions and rotations given as lists along with
 a matrix keep the precision of the matrix

---
 src/pytorch_kinematics/transforms/transform3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index a72d8c6..9172b95 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -183,8 +183,9 @@ class Transform3d:
                 raise ValueError(
                     '"matrix" has to be a tensor of shape (minibatch, 4, 4)'
                 )
-            # set the device from matrix
+            # set the device and dtype from matrix
             device = matrix.device
+            dtype = matrix.dtype
             self._matrix = matrix.view(-1, 4, 4)
 
         if pos is not None:
-- 
2.43.0


From 12507c2f74a1cd79f1d5055563dbb1d4486384a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:59 +0000
Subject: [PATCH 27/36] fix: a single rotation or position can be combined with
 a batch of positions or matrices

---
 src/pytorch_kinematics/transforms/transform3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 9172b95..04c2d64 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -196,7 +196,7 @@ class Transform3d:
                 ones = ones.repeat(*pos.shape[:-1], 1)
                 if pos.ndim in (2, 3) and pos.shape[0] > 1 and self._matrix.shape[0] == 1:
                     self._matrix = self._matrix.repeat(pos.shape[0], 1, 1)
-            pos_h = torch.cat((pos, ones), dim=-1).reshape(-1, 4, 1)
+            pos_h = torch.cat((pos, ones), dim=-1).reshape(-1, 4, 1).expand(self._matrix.shape[0], -1, -1)
             self._matrix = torch.cat((self._matrix[:, :, :3], pos_h), dim=-1)
 
         if rot is not None:
@@ -211,7 +211,7 @@ class Transform3d:
                 zeros = zeros.repeat(rot.shape[0], 1, 1)
                 if rot.shape[0] > 1 and self._matrix.shape[0] == 1:
                     self._matrix = self._matrix.repeat(rot.shape[0], 1, 1)
-            rot_h = torch.cat((rot, zeros), dim=-2).reshape(-1, 4, 3)
+            rot_h = torch.cat((rot, zeros), dim=-2).reshape(-1, 4, 3).expand(self._matrix.shape[0], -1, -1)
             self._matrix = torch.cat((rot_h, self._matrix[:, :, 3].reshape(-1, 4, 1)), dim=-1)
 
         self._lu = None
-- 
2.43.0


From 4bb9d000ccceb1ec9542e72b3174649abe0334da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:59 +0000
Subject: [PATCH 28/36] fix: transform_shape_operator accepts batched
 transforms and shape operators as documented

---
 src/pytorch_kinematics/transforms/transform3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 04c2d64..0d9e240 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -400,8 +400,8 @@ class Transform3d:
         if shape_operators.dim() not in [3, 4]:
             msg = "Expected shape_operators to have dim = 3 or dim = 4: got shape %r"
             raise ValueError(msg % (shape_operators.shape,))
-        mat = self.inverse().get_matrix()[:, :3, :3]
-        shape_operators_out = _broadcast_bmm(mat.permute(0, 2, 1), _broadcast_bmm(shape_operators, mat))
+        mat = self.inverse().get_matrix()[:, None, :3, :3]
+        shape_operators_out = mat.transpose(-1, -2) @ (shape_operators @ mat)
 
         # When transform is (1, 4, 4) and shape_operator is (P, 3, 3) return
         # shape_operators_out of shape (P, 3, 3)
-- 
2.43.0


From f2e957d652713a96deb790aac2c3eecd045f54a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:59 +0000
Subject: [PATCH 29/36] fix: translate, scale and rotate keep the precision of
 the transform

---
 src/pytorch_kinematics/transforms/transform3d.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 0d9e240..74e8e1b 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -410,14 +410,20 @@ class Transform3d:
 
         return shape_operators_out
 
+    def _build(self, transform, *args, **kwargs):
+        # in the precision of this transform unless the caller gives one
+        if not any(isinstance(a, torch.dtype) for a in args):
+            kwargs.setdefault('dtype', self.dtype)
+        return transform(*args, device=self.device, **kwargs)
+
     def translate(self, *args, **kwargs):
-        return self.compose(Translate(device=self.device, *args, **kwargs))
+        return self.compose(self._build(Translate, *args, **kwargs))
 
     def scale(self, *args, **kwargs):
-        return self.compose(Scale(device=self.device, *args, **kwargs))
+        return self.compose(self._build(Scale, *args, **kwargs))
 
     def rotate(self, *args, **kwargs):
-        return self.compose(Rotate(device=self.device, *args, **kwargs))
+        return self.compose(self._build(Rotate, *args, **kwargs))
 
     def rotate_axis_angle(self, *args, **kwargs):
         return self.compose(RotateAxisAngle(device=self.device, *args, **kwargs))
-- 
2.43.0


From 1a77aa4a4d26387bef51d4f52bedc115f0ecf44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:35 +0000
Subject: [PATCH 30/36] fix: Link.to converts the placements of the visuals too

---
 src/pytorch_kinematics/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/frame.py b/src/pytorch_kinematics/frame.py
index 35af508..e417f02 100644
--- a/src/pytorch_kinematics/frame.py
+++ b/src/pytorch_kinematics/frame.py
@@ -33,6 +33,9 @@ class Link(object):
     def to(self, *args, **kwargs):
         if self.offset is not None:
             self.offset = self.offset.to(*args, **kwargs)
+        for visual in self.visuals:
+            if visual.offset is not None:
+                visual.offset = visual.offset.to(*args, **kwargs)
         return self
 
     def __repr__(self):
-- 
2.43.0


From e9ae44a0a8777e489ee98284dfedf5d23f22191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:16 +0000
Subject: [PATCH 31/36] fix: per-problem initial configurations are accepted

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 21e2721..d1a46b1 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -363,7 +363,7 @@ class InverseKinematics:
         if retry_configs is None:
             self.initial_config = self.sample_configs(num_retries)
         else:
-            if retry_configs.shape[1] != self.dof:
+            if retry_configs.shape[-1] != self.dof:
                 raise ValueError("initial_configs must have shape (N, %d)" % self.dof)
         # could give a batch of initial configs
         self.num_retries = self.initial_config.shape[-2]
-- 
2.43.0


From 5e975f4bda822542e3f84c23b832d881d8533f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:41 +0000
Subject: [PATCH 32/36] fix: random initial configurations of the inverse
 kinematics ignored the precision of the robot

---
 src/pytorch_kinematics/ik.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index d1a46b1..4650c5f 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -379,10 +379,11 @@ class InverseKinematics:
             # bound by joint_limits
             if self.joint_limits is None:
                 raise ValueError("joint_limits must be specified if config_sampling_method is uniform")
-            return torch.rand(num_configs, self.dof, device=self.device) * (
-                    self.joint_limits[:, 1] - self.joint_limits[:, 0]) + self.joint_limits[:, 0]
+            joint_limits = self.joint_limits.to(device=self.device, dtype=self.dtype)
+            return torch.rand(num_configs, self.dof, device=self.device, dtype=self.dtype) * (
+                    joint_limits[:, 1] - joint_limits[:, 0]) + joint_limits[:, 0]
         elif self.config_sampling_method == "gaussian":
-            return torch.randn(num_configs, self.dof, device=self.device)
+            return torch.randn(num_configs, self.dof, device=self.device, dtype=self.dtype)
         elif callable(self.config_sampling_method):
             return self.config_sampling_method(num_configs)
         else:
-- 
2.43.0


From 1c718f96a8dbff4f9d6f0418eae0da29d87b445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:31 +0000
Subject: [PATCH 33/36] fix: the gradients of the axis-angle conversions were
 NaN at no rotation

---
 .../transforms/rotation_conversions.py               | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index f6b428a..1677ff5 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -578,9 +578,11 @@ def axis_angle_to_quaternion(axis_angle):
     eps = 1e-6
     # for x small, sin(x/2) is about x/2 - (x/2)^3/6
     # so sin(x/2)/x is about 1/2 - (x*x)/48
+    small = angles.abs() < eps
     small_theta = 0.5 - (angles * angles) / 48
-    large_theta = torch.sin(half_angles) / angles
-    sin_half_angles_over_angles = torch.where(angles.abs() < eps, small_theta, large_theta)
+    # the unused branch must not divide by 0, which would make the gradient NaN
+    large_theta = torch.sin(half_angles) / torch.where(small, torch.ones_like(angles), angles)
+    sin_half_angles_over_angles = torch.where(small, small_theta, large_theta)
     quaternions = torch.cat(
         [torch.cos(half_angles), axis_angle * sin_half_angles_over_angles], dim=-1
     )
@@ -607,9 +609,11 @@ def quaternion_to_axis_angle(quaternions):
     eps = 1e-6
     # for x small, sin(x/2) is about x/2 - (x/2)^3/6
     # so sin(x/2)/x is about 1/2 - (x*x)/48
+    small = angles.abs() < eps
     small_theta = 0.5 - (angles * angles) / 48
-    large_theta = torch.sin(half_angles) / angles
-    sin_half_angles_over_angles = torch.where(angles.abs() < eps, small_theta, large_theta)
+    # the unused branch must not divide by 0, which would make the gradient NaN
+    large_theta = torch.sin(half_angles) / torch.where(small, torch.ones_like(angles), angles)
+    sin_half_angles_over_angles = torch.where(small, small_theta, large_theta)
     return quaternions[..., 1:] / sin_half_angles_over_angles
 
 
-- 
2.43.0


From 69f7f2f8a03fbe3b2c256785b58842fa99f93fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:45 +0000
Subject: [PATCH 34/36] fix: keep the joint tables of a chain built on another
 device on that device

---
 src/pytorch_kinematics/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index fc2c75a..638670d 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -296,8 +296,8 @@ class Chain:
                 queue.append((child, idx, depth + 1))
 
             idx += 1
-        self.joint_type_indices = torch.tensor(self.joint_type_indices)
-        self.joint_indices = torch.tensor(self.joint_indices)
+        self.joint_type_indices = torch.tensor(self.joint_type_indices, device=self.device)
+        self.joint_indices = torch.tensor(self.joint_indices, device=self.device)
         # We need to use a dict because torch.compile doesn't list lists of tensors
         self.parents_indices = [torch.tensor(p, dtype=torch.long, device=self.device) for p in self.parents_indices]
 
-- 
2.43.0


From 96742a6cebf30eda7c8606f3f646ce0443294d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:45 +0000
Subject: [PATCH 35/36] fix: accept Jacobian tool locations on the device and
 in the precision of the chain

---
 src/pytorch_kinematics/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 638670d..861efff 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -791,7 +791,8 @@ class SerialChain(Chain):
             if isinstance(locations, tf.Transform3d):
                 tool = locations
             else:
-                tool = tf.Transform3d(pos=locations)
+                locations = torch.as_tensor(locations, dtype=self.dtype, device=self.device)
+                tool = tf.Transform3d(pos=locations, dtype=self.dtype, device=self.device)
             if tool.dtype != self.dtype or tool.device != self.device:
                 tool = tool.to(device=self.device, copy=True, dtype=self.dtype)
             tool_matrix = tool.get_matrix()
-- 
2.43.0


From 11a9cc633b20cba67f7bddd359340a49a086b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:17 +0000
Subject: [PATCH 36/36] fix: clamp the IK iterates when the chain has upper
 joint limits only

---
 src/pytorch_kinematics/ik.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 4650c5f..843734d 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -326,7 +326,8 @@ class InverseKinematics:
         self.debug = debug
         self.enforce_joint_limits = enforce_joint_limits
         self.num_limit_refinement_iterations = num_limit_refinement_iterations
-        self.clamp_to_limits = clamp_to_limits and torch.isfinite(serial_chain.low).any()
+        self.clamp_to_limits = clamp_to_limits and (torch.isfinite(serial_chain.low).any()
+                                                    or torch.isfinite(serial_chain.high).any())
         # precompute which joints are revolute (for 2*pi wrapping)
         joints = self.chain.get_joints(exclude_fixed=True)
         self._revolute_mask = torch.tensor([j.joint_type == 'revolute' for j in joints],
-- 
2.43.0

