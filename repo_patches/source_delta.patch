From 539531825a4c39797d5b610dc587a209a67819a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 01/49] fix: slerp returned NaN for equal quaternions whose dot
 product rounds past 1

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index bea5303..886965d 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -321,7 +321,8 @@ def slerp(q0, q1, t):
     if (np.dot(q0,q1) < 0):
         q0 = -q0
     
-    theta = np.arccos(np.dot(q0,q1))
+    # Rounding can push the dot product of equal quaternions past 1
+    theta = np.arccos(np.clip(np.dot(q0,q1), -1.0, 1.0))
     
     if (np.abs(theta) < 1e-6):
         return q0
-- 
2.43.0


From 9acf9d52683112e2f1f6aecbbb7c7deefe6548d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 02/49] fix: q2rot returned NaN when the scalar part of a unit
 quaternion rounds past 1

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 886965d..3ff4465 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -207,7 +207,8 @@ def q2rot(q):
     :rtype:  (numpy.array, number)
     :return: the 3x1 rotation vector and theta    
     """
-    theta = 2 * np.arccos(q[0])
+    # Rounding can push the scalar part of a unit quaternion past 1
+    theta = 2 * np.arccos(np.clip(q[0], -1.0, 1.0))
     if np.abs(theta) < 1e-6:
         return np.array([0,0,1]), 0.0
     k = q[1:4]/np.sin(theta/2.0)
-- 
2.43.0


From c10a7d3cc9f496f7771059a5cbce020d8c111a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 03/49] fix: R2rot returned NaN or a wrong axis for rotations
 by pi about some axes

---
 .../general_robotics_toolbox.py                     | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 3ff4465..a90c583 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -111,13 +111,12 @@ def R2rot(R):
             return [0,0,1], 0
         else:
             B = (1.0/2.0) *(R + np.eye(3))
-            k = np.sqrt([B[0,0], B[1,1], B[2,2]])
-            if np.abs(k[0]) > 1e-6:
-                k[1] = k[1] * np.sign(B[0,1] / k[0])
-                k[2] = k[2] * np.sign(B[0,2] / k[0])
-            elif np.abs(k[1]) > 1e-6:
-                k[2] = k[2] * np.sign(B[0,2] / k[1])
-            return k, np.pi
+            B = (B + B.transpose())/2.0
+            # B = k*k^T, use the column of the largest component so neither
+            # the square root nor the signs depend on rounding
+            i = np.argmax(np.diag(B))
+            k = B[:,i] / np.sqrt(B[i,i])
+            return k/np.linalg.norm(k), np.pi
     
     k = invhat(R1)/(2.0*sin_theta)    
     return k, theta
-- 
2.43.0


From 6eef8e040ff365d1bbab15b13d344270dde45545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 04/49] fix: R2rot returned a list instead of an array for the
 identity, which rot2q rejects

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index a90c583..fceab76 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -108,7 +108,7 @@ def R2rot(R):
     if sin_theta < 1e-6:
                
         if (cos_theta > 0):
-            return [0,0,1], 0
+            return np.array([0,0,1]), 0
         else:
             B = (1.0/2.0) *(R + np.eye(3))
             B = (B + B.transpose())/2.0
-- 
2.43.0


From 0b78bf0555516e89c1526af13cc869e71fd25b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 05/49] fix: subproblem0 and subproblem1 rejected valid vectors
 because of rounding, and accepted obtuse ones

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index fceab76..de7a3b3 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -657,12 +657,13 @@ def subproblem0(p, q, k):
     :return: theta angle as scalar in radians
     """
     
-    eps = np.finfo(np.float64).eps    
-    assert (np.dot(k,p) < eps) and (np.dot(k,q) < eps), \
-           "k must be perpendicular to p and q"
-    
     norm = np.linalg.norm
     
+    # Relative to the length of the vectors, their projections are rounded
+    tol = 1e-7
+    assert (np.abs(np.dot(k,p)) < tol*norm(p)) and (np.abs(np.dot(k,q)) < tol*norm(q)), \
+           "k must be perpendicular to p and q"
+    
     ep = p / norm(p)
     eq = q / norm(q)
     
-- 
2.43.0


From 1a3247a68d0d203c614df40987e5968c541d0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 06/49] fix: subproblem1 failed for vectors along the rotation
 axis

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index de7a3b3..aa41936 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -702,6 +702,10 @@ def subproblem1(p, q, k):
     pp = np.subtract(p,np.dot(p, k)*k)
     qp = np.subtract(q,np.dot(q, k)*k)
     
+    # p or q is along k, so every theta is a solution
+    if norm(pp) < np.sqrt(eps)*norm(p) or norm(qp) < np.sqrt(eps)*norm(q):
+        return 0.0
+    
     epp = np.divide(pp, norm(pp))    
     eqp = np.divide(qp, norm(qp))
     
-- 
2.43.0


From 34dcb0d7766067f4d26edb42759fbe95b00b088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 07/49] fix: subproblem2 passed its arguments to subproblem1 in
 the wrong order for tangent cones

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index aa41936..41925fd 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -768,8 +768,8 @@ def subproblem2(p, q, k1, k2):
     if (np.abs(gamma) < eps):
         cm=np.array([k1, k2, np.cross(k1,k2)]).T
         c1 = np.dot(cm, np.hstack((a, gamma)))
-        theta2 = subproblem1(k2, p, c1)
-        theta1 = -subproblem1(k1, q, c1)
+        theta2 = subproblem1(p, c1, k2)
+        theta1 = -subproblem1(q, c1, k1)
         return [(theta1, theta2)]
     
     cm=np.array([k1, k2, np.cross(k1,k2)]).T
-- 
2.43.0


From 1eef2d9c68ad25ec8f9aa19597f5e61a0fb4db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 08/49] fix: subproblem2 lost the solution of tangent cones to
 rounding

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 41925fd..71e44e4 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -758,7 +758,8 @@ def subproblem2(p, q, k1, k2):
     a = np.matmul([[k12, -1], [-1, k12]],[pk, qk]) / (k12**2 - 1)
     
     bb = (np.dot(p,p) - np.dot(a,a) - 2*a[0]*a[1]*k12)
-    if (np.abs(bb) < eps): bb=0
+    # Tangent cones, allow for rounding
+    if (bb < 0 and bb > -1e-13*np.dot(p,p)) or (np.abs(bb) < eps): bb=0
     
     if (bb < 0):
         warnings.warn("No solution - no intersection found between cones")
-- 
2.43.0


From f6c50198eb477019e96d97603c72b3651cc79591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 09/49] fix: subproblem3 lost the solution at full extension to
 rounding

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 71e44e4..6223ac7 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -813,6 +813,10 @@ def subproblem3(p, q, k, d):
     
     bb=-(np.dot(pp,pp) + np.dot(qp,qp) - dpsq)/(2*norm(pp)*norm(qp))
     
+    # Fully extended or retracted, allow for rounding
+    if np.abs(bb) > 1 and np.abs(bb) < 1 + 1e-13:
+        bb = np.sign(bb)
+    
     if dpsq < 0 or np.abs(bb) > 1:
         warnings.warn("No solution - no rotation can achieve specified distance")
         return []
-- 
2.43.0


From 4ec61391d57f167a5a947127bd45d6cedded77e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 10/49] fix: subproblem4 returned NaN for unreachable negative
 displacements

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 6223ac7..6f7ce15 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -858,7 +858,11 @@ def subproblem4(p, q, k, d):
     
     d = c / np.linalg.norm([a,b])
     
-    if d > 1:
+    # At the limit of the range, allow for rounding
+    if np.abs(d) > 1 and np.abs(d) < 1 + 1e-13:
+        d = np.sign(d)
+    
+    if not np.abs(d) <= 1:
         return []
     
     psi = np.arcsin(d)
-- 
2.43.0


From c7b3b5106c63ec8e4e8c26cfb6d81cf7087d7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 11/49] fix: robot6_sphericalwrist_invkin modified the geometry
 of the robot passed in

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 8606696..0888698 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -143,7 +143,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     p0T = desired_pose2.p
     
     H = robot.H
-    P = robot.P
+    P = np.copy(robot.P)
     
     theta_v = []
     
-- 
2.43.0


From 389ee09e83388c980d6b47f36733c8d7ec3ee016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 12/49] fix: inverse kinematics and equivalent_configurations
 raised instead of returning an empty list with last_joints

---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 0888698..b48ee51 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -220,7 +220,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 q6 = q6[0]
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -319,7 +319,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))   
 
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -384,7 +384,7 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
                 continue
         theta_ret.append(eq_theta)
     
-    if last_joints is not None:
+    if last_joints is not None and len(theta_ret) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_ret,last_joints), axis=1)
         return [theta_ret[i] for i in list(np.argsort(theta_dist))]
     else:
-- 
2.43.0


From 537a12134832eabf7f34055cec999b3f25e13ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 13/49] fix: ur_invkin ignored the limits and last position of
 joint 5

---
 .../general_robotics_toolbox_invkin.py                       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index b48ee51..2804cce 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -278,6 +278,11 @@ def ur_invkin(robot, desired_pose, last_joints = None):
         Q24_Q5 = rox.subproblem2(p4, v4, H[:,3], H[:,4])
 
         for q24, q5 in Q24_Q5:
+            q5 = normalize(4, [q5])
+            if len(q5) == 0:
+                continue
+            q5 = q5[0]
+
             R04 = np.matmul(rox.rot(H[:,0],q1),rox.rot(H[:,3],q24))
             
             p23p = p04 - P[:,0] - np.matmul(R01,P[:,1]) - np.matmul(R04,P[:,4])
-- 
2.43.0


From 30e071ffddda9c4fcfebae84379a02aa218b8f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 14/49] fix: closed form inverse kinematics returned wrong
 joints for a base offset not along the first axis

---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 2804cce..d4aed67 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -161,7 +161,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
         P[:,5] = np.zeros(3)       
     
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3])
-    v1 = p0T - R06.dot(P[:,6])    
+    v1 = p0T - P[:,0] - R06.dot(P[:,6])    
     p1 = ey
     
     Q1 = rox.subproblem4(p1, v1, -H[:,0], d1)
@@ -172,7 +172,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 
         R01=rox.rot(H[:,0], q1)
         
-        p26_q1 = R01.T.dot(p0T - R06.dot(P[:,6])) - (P[:,0] + P[:,1])
+        p26_q1 = R01.T.dot(p0T - P[:,0] - R06.dot(P[:,6])) - P[:,1]
         
         d3 = np.linalg.norm(p26_q1)
         v3 = P[:,2]        
@@ -260,7 +260,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
 
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3] + P[:,4])
     p04 = p0T - np.matmul(R06,P[:,6] + P[:,5])
-    v1 = p04
+    v1 = p04 - P[:,0]
     p1 = ey
     
     Q1 = rox.subproblem4(p1, v1, -H[:,0], d1)
-- 
2.43.0


From 56ebdfd74f377b64e16696b9419b95b6c56f5620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 15/49] fix: robot6_sphericalwrist_invkin rejected spherical
 wrists because of rounding in H and P

---
 .../general_robotics_toolbox_invkin.py                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index d4aed67..ec7315b 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -150,13 +150,13 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     #Correct for spherical joint position vectors
     if not np.all(P[:,4] == 0):
         P4_d = P[:,4].dot(H[:,3])
-        assert np.all(P[:,4] - P4_d*H[:,3] == 0)
+        assert np.allclose(P[:,4], P4_d*H[:,3])
         P[:,3] += P[:,4]
         P[:,4] = np.zeros(3)
             
     if not np.all(P[:,5] == 0):
         P5_d = P[:,5].dot(H[:,5])
-        assert np.all(P[:,5] - P5_d*H[:,5] == 0)
+        assert np.allclose(P[:,5], P5_d*H[:,5])
         P[:,6] += P[:,5]
         P[:,5] = np.zeros(3)       
     
-- 
2.43.0


From 35ac2b2acd565aad381f4989af33c9dd3329f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 16/49] fix: equivalent_configurations returned configurations
 that were passed in

---
 .../general_robotics_toolbox_invkin.py                       | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index ec7315b..5299968 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -384,9 +384,8 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
     theta_ret =[]
 
     for eq_theta in equiv_theta:
-        for theta1 in theta_v:
-            if np.allclose(theta1, eq_theta):
-                continue
+        if any(np.allclose(theta1, eq_theta) for theta1 in theta_v):
+            continue
         theta_ret.append(eq_theta)
     
     if last_joints is not None and len(theta_ret) > 0:
-- 
2.43.0


From 0703929d658e822d7268578619d4c2cffd7ef2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 17/49] fix: iterative_invkin shifted prismatic joints by
 multiples of 2*pi

---
 .../general_robotics_toolbox_invkin.py                      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 5299968..2e6fb88 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -51,6 +51,7 @@ class normalize_joints(object):
                   
         self._last_joints = last_joints
         self._use_last_joints = last_joints is not None
+        self._joint_type = robot.joint_type
             
     def normalize(self, joint, theta):
         if self._check_limits:
@@ -58,6 +59,8 @@ class normalize_joints(object):
             u = self._upper_limit[joint]
             
             if not (l < theta and theta < u ):
+                if self._joint_type[joint] == 1 or self._joint_type[joint] == 3:
+                    return None
                 a = 2*np.pi*np.array([-1,1])
                 b = a + theta
                 c = np.argwhere(np.logical_and(l < b,  b < u))
@@ -65,7 +68,8 @@ class normalize_joints(object):
                     return None                
                 theta += (a[c[0]]).item()
         
-        if self._use_last_joints:
+        # Only rotary joints are equivalent after a full turn
+        if self._use_last_joints and self._joint_type[joint] != 1 and self._joint_type[joint] != 3:
             diff = self._last_joints[joint] - theta                               
             n_diff = np.floor_divide(diff, 2*np.pi)
             r_diff = np.remainder(diff, 2*np.pi)
-- 
2.43.0


From c909fd404b8493bbf3ad5590807e7539b1e33e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 18/49] fix: iterative_invkin rejected a list or tuple as seed

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 2e6fb88..e0fdc09 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -430,7 +430,7 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
     R_d = desired_pose.R
     p_d = desired_pose.p
     
-    d_q = q_current
+    d_q = np.asarray(q_current)
 
     num_joints = len(robot.joint_type)
 
-- 
2.43.0


From f689b5ddbf4dd539971a6cd08809fa8155758634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 19/49] fix: iterative_invkin failed for robots with one joint

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index e0fdc09..cd19981 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -499,6 +499,6 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
         itr += 1 # Increase the iteration
 
 
-    q_normed = normalize(np.arange(num_joints), [np.squeeze(q_cur)])
+    q_normed = normalize(np.arange(num_joints), [q_cur.flatten()])
     
     return converged, q_normed
\ No newline at end of file
-- 
2.43.0


From d39627f2eefffe3da9989475b671645d1ad78400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 20/49] fix: robot info loader returned non orthonormal
 rotations for rounded quaternions

---
 src/general_robotics_toolbox/robotraconteur.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 216b01b..5742c71 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -68,7 +68,8 @@ def _to_transform(d):
         q = _to_qvec(d["rotation"])
         p = _to_vec3(d["translation"])
 
-    return rox.Transform(rox.q2R(q), p)
+    # File quaternions are rounded, q2R needs a unit quaternion
+    return rox.Transform(rox.q2R(q/np.linalg.norm(q)), p)
 
 
 def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
-- 
2.43.0


From b1f7649a7bff568753f2b15b5a8c5afdbe39913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 21/49] fix: robot info loader used the joints of the first
 chain for every chain

---
 src/general_robotics_toolbox/robotraconteur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 5742c71..52a9992 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -123,7 +123,7 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
     joint_names = [None]*joint_count
 
     for i in range(joint_count):
-        j = robot_yml["joint_info"][i]
+        j = robot_yml["joint_info"][chain["joint_numbers"][i]]
         if j["joint_type"] == "revolute":
             # Revolute joint
             joint_type[i] = 0
-- 
2.43.0


From 525f93602144f4d0f3053391164c697cbb554ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 22/49] fix: URDF joints without an axis element failed to load
 instead of using the default axis

---
 src/general_robotics_toolbox/urdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/urdf.py b/src/general_robotics_toolbox/urdf.py
index b5fa7b3..dc93b01 100644
--- a/src/general_robotics_toolbox/urdf.py
+++ b/src/general_robotics_toolbox/urdf.py
@@ -136,7 +136,8 @@ def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
         if j.joint_type == 'fixed':
             pass            
         elif j.joint_type == 'revolute' or j.joint_type == 'prismatic':            
-            H[:,i] = np.matmul(R,j.axis)
+            # The URDF default axis is x
+            H[:,i] = np.matmul(R,j.axis if j.axis is not None else [1,0,0])
             joint_type[i] = 0 if j.joint_type == 'revolute' else 1
             if j.limit is not None:
                 joint_lower_limit[i] = j.limit.lower
-- 
2.43.0


From 94ed2794ef112ce03bc0134cdeca4ef6426e9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:42 +0000
Subject: [PATCH 23/49] fix: robot info loader did not check the bounds of the
 first joint number of a chain

---
 src/general_robotics_toolbox/robotraconteur.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 52a9992..c36dbf4 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -93,8 +93,8 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
 
     chain = robot_yml["chains"][chain_number]
     joint_count = len(chain["joint_numbers"])
-    for i in range(1, joint_count):
-        if chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
+    for i in range(joint_count):
+        if i > 0 and chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
             raise ValueError(
                 "joint numbers must be increasing in chain number " + str(chain_number))
 
-- 
2.43.0


From feb7a1690c4278784036a62a9a4240f2211a29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 24/49] fix: inverse kinematics lost solutions that are more
 than one turn away from the joint limits

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index cd19981..2ce8106 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -61,7 +61,7 @@ class normalize_joints(object):
             if not (l < theta and theta < u ):
                 if self._joint_type[joint] == 1 or self._joint_type[joint] == 3:
                     return None
-                a = 2*np.pi*np.array([-1,1])
+                a = 2*np.pi*np.array([-1,1,-2,2,-3,3])
                 b = a + theta
                 c = np.argwhere(np.logical_and(l < b,  b < u))
                 if len(c) == 0:
-- 
2.43.0


From a03a95f69f91fd2172c9caa303ccda3a4fbff888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 25/49] fix: inverse kinematics dropped solutions when
 last_joints was specified

Pruning one joint at a time discarded the closest configuration, or returned
an empty list for a reachable pose, when the remaining joints of the kept
branch were further away or out of limits.
---
 .../general_robotics_toolbox_invkin.py                     | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 2ce8106..49b4db9 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -110,13 +110,6 @@ class normalize_joints(object):
         else:
             theta_dist = np.linalg.norm(np.subtract(theta_normed,theta_last), axis=1)
         
-        #Heuristic pruning of last_joints
-        theta_ret1 = [t for t in theta_normed if np.all(np.less(np.abs(t - theta_last), np.pi/2.0))]        
-        if len(theta_ret1) == 1:
-            return theta_ret1
-        if len(theta_ret1) == 0:
-            theta_ret1 = theta_normed
-        
         return [theta_normed[i] for i in list(np.argsort(theta_dist))]
         
   
-- 
2.43.0


From 6e6dc67ccfb1ecc61f2ba542bde58163e3030143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 26/49] fix: Transform copied R but shared p with the array
 passed in

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 6f7ce15..c2cde61 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -480,7 +480,7 @@ class Transform(object):
         assert (np.shape(p) == (3,) or np.shape(p) ==(3,1))
         
         self.R=np.array(R)
-        self.p=np.reshape(p,(3,))
+        self.p=np.array(np.reshape(p,(3,)))
         self.parent_frame_id=parent_frame_id
         self.child_frame_id=child_frame_id
         
-- 
2.43.0


From 09a2bf734a03074277ca74e5d31d213a700795b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 27/49] fix: OPWInvKin returned wrong joints for robots with
 the wrist along z in the home position

---
 src/general_robotics_toolbox/tesseract.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 6725650..c611343 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -635,7 +635,6 @@ def robot_to_opw_inv_kin_parameters(robot):
     ez = np.array([0.,0.,1.])
 
     assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, rox.rot([0,1,0], np.pi/2.0))
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
     assert len(robot.joint_type) == 6
@@ -655,6 +654,12 @@ def robot_to_opw_inv_kin_parameters(robot):
     assert axis_sign(robot.H[:,3], robot.H[:,5]) != 0
     assert axis_sign(robot.H[:,5], ez) != 0 or axis_sign(robot.H[:,5], ex) != 0
 
+    # The flange z axis points out of the wrist, along x or z in the home position
+    if axis_sign(robot.H[:,5], ex) != 0:
+        assert np.allclose(robot.T_flange.R, rox.rot([0,1,0], np.pi/2.0))
+    else:
+        assert np.allclose(robot.T_flange.R, np.eye(3))
+
     H2 = np.copy(robot.H)
     P2 = np.copy(robot.P)
 
-- 
2.43.0


From 3a2d6b9e2379ff86a09d6327387896da51957566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 28/49] fix: URInvKin ignored the tool of the robot

---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index c611343..aef3492 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -543,7 +543,7 @@ def kinematics_plugin_info_dict(robot, robot_name, link_names, joint_names, chai
         elif invkin_solver == "URInvKin":
             ur_params = robot_to_ur_inv_kin_parameters(robot)
             invkin_plugin_info, invkin_libs = kinematics_plugin_invkin_ur_plugin_info_dict(robot_name, base_link,
-                tip_link, ur_params)
+                robot_name + "_flange", ur_params)
         else:
             assert False, "Unknown inverse kinematics solver"
 
-- 
2.43.0


From 2a3be71fb0d7068cad5c5fc13cf879cb1c345038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 29/49] fix: URInvKin parameters ignored the offset after the
 last joint

---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index aef3492..bff455d 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -1009,7 +1009,7 @@ def robot_to_ur_inv_kin_parameters(robot):
     d5 = -np.sum(P2[2,4:5]).item()
     assert np.allclose(P2[2,5:], 0.0)
     assert np.allclose(P2[0,5:], 0.0)
-    d6 = -np.sum(P2[1,5:6]).item()
+    d6 = -np.sum(P2[1,5:7]).item()
 
     ret = URInvKinParameters(d1,a2,a3,d4,d5,d6)
 
-- 
2.43.0


From f1cc267a3d957ebd87e7ab8188ad3ccec57215a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 30/49] fix: URInvKin parameters rejected robots aligned with
 +x and accepted reversed joints

---
 src/general_robotics_toolbox/tesseract.py | 27 ++++++++++++++---------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index bff455d..4afd8d4 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -978,24 +978,29 @@ def robot_to_ur_inv_kin_parameters(robot):
     ey = np.array([0.,1.,0.])
     ez = np.array([0.,0.,1.])
 
-    assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, np.array([ex, ez, -ey]).T, atol=1e-6)
-    assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
-
-    assert robot.T_base
-    assert np.allclose(robot.T_base.R, rox.rot([0,0,1], np.pi), atol=1e-6)
-    assert np.allclose(robot.T_base.p.flatten(), np.array([0.,0.,0.]))
-
     minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
-    plus_x = np.allclose(robot.H, -np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
-
-    P2 = robot.P
+    plus_x = np.allclose(robot.H, np.array([ez,ey,ey,ey,-ez,ey]).T)
 
     assert minus_x or plus_x
 
+    P2 = robot.P
+    assert robot.T_flange
+    R_flange = robot.T_flange.R
+    R_base = np.eye(3) if robot.T_base is None else robot.T_base.R
+    p_base = np.zeros((3,)) if robot.T_base is None else robot.T_base.p
+
     if plus_x:
+        # Same robot with the base rotated by 180 degrees
         R = rox.rot(ez,np.pi)
         P2 = np.matmul(R, P2)
+        R_flange = np.matmul(R, R_flange)
+        R_base = np.matmul(R_base, R)
+
+    assert np.allclose(R_flange, np.array([ex, ez, -ey]).T, atol=1e-6)
+    assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
+
+    assert np.allclose(R_base, rox.rot(ez, np.pi), atol=1e-6)
+    assert np.allclose(p_base.flatten(), np.array([0.,0.,0.]))
 
     assert np.allclose(P2[0:2,0], 0.0)
     d1 = P2[2,0].item()
-- 
2.43.0


From 2557011803e467a9c11f781d64fa0e870c345540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 31/49] fix: robot info loader accepted negative chain and
 joint numbers

---
 src/general_robotics_toolbox/robotraconteur.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index c36dbf4..aeb45f0 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -88,7 +88,7 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
         robot_yml = yaml.safe_load(robot_info_file)
     _check_list(
         robot_yml["chains"], "could not find kinematic chain number " + str(chain_number))
-    if chain_number >= len(robot_yml["chains"]):
+    if chain_number < 0 or chain_number >= len(robot_yml["chains"]):
         raise ValueError("invalid kinematic chain number " + str(chain_number))
 
     chain = robot_yml["chains"][chain_number]
@@ -98,7 +98,7 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
             raise ValueError(
                 "joint numbers must be increasing in chain number " + str(chain_number))
 
-        if chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
+        if chain["joint_numbers"][i] < 0 or chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
             raise ValueError(
                 "joint number out of bounds in chain number " + str(chain_number))
 
-- 
2.43.0


From f4ae265647e12a11acb4aabb601182464e7f28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 32/49] fix: subproblem2 did not recognize parallel axes when
 their norm is rounded

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index c2cde61..bc70b54 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -751,7 +751,7 @@ def subproblem2(p, q, k1, k2):
     qk = np.dot(q, k1)
     
     # check if solution exists
-    if (np.abs( 1 - k12**2) < eps):
+    if (np.abs( 1 - k12**2) < 10*eps):
         warnings.warn("No solution - k1 != k2")
         return []
     
-- 
2.43.0


From 471b3abf62ba4c3c776d01846e3897126d292f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 33/49] fix: subproblem3 lost the solution with the arm folded
 onto the axis to rounding

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index bc70b54..50961ca 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -817,7 +817,7 @@ def subproblem3(p, q, k, d):
     if np.abs(bb) > 1 and np.abs(bb) < 1 + 1e-13:
         bb = np.sign(bb)
     
-    if dpsq < 0 or np.abs(bb) > 1:
+    if np.abs(bb) > 1:
         warnings.warn("No solution - no rotation can achieve specified distance")
         return []
     
-- 
2.43.0


From 41afd4176da3d388474350d63d14afdc227d6a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:22 +0000
Subject: [PATCH 34/49] fix: ur_invkin returned wrong joints for arms with an
 offset across the last axis

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 49b4db9..c071123 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -252,6 +252,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
     assert np.allclose((np.array([ez,-ey,-ey,-ey,-ez,-ey]).T), H) or \
            np.allclose((np.array([ez,ey,ey,ey,-ez,ey]).T), H), \
            "Invalid UR robot format"
+    assert np.allclose(P[[0,2],5], 0), "Invalid UR robot format"
     
     theta_v = []
 
-- 
2.43.0


From 7ac7ea81bd55f541938211003efcfaddcb081162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:22 +0000
Subject: [PATCH 35/49] fix: robot6_sphericalwrist_invkin returned wrong joints
 for arms with other shoulder or elbow axes

---
 .../general_robotics_toolbox_invkin.py                         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index c071123..322e0da 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -142,6 +142,9 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     H = robot.H
     P = np.copy(robot.P)
     
+    assert H.shape[1] == 6 and np.allclose(H[[0,2],1:3], 0, atol=1e-5), \
+           "Invalid spherical wrist robot format"
+    
     theta_v = []
     
     #Correct for spherical joint position vectors
-- 
2.43.0


From b3f5f229318e2018ee3efb10cfdc578eab542315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:22 +0000
Subject: [PATCH 36/49] fix: closed form inverse kinematics returned wrong
 joints for arms with prismatic joints

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 322e0da..aa49c23 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -142,6 +142,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     H = robot.H
     P = np.copy(robot.P)
     
+    assert not np.any(np.isin(robot.joint_type, (1,3))), "All joints must be rotary"
     assert H.shape[1] == 6 and np.allclose(H[[0,2],1:3], 0, atol=1e-5), \
            "Invalid spherical wrist robot format"
     
@@ -252,6 +253,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
     H = robot.H
     P = robot.P
 
+    assert not np.any(np.isin(robot.joint_type, (1,3))), "All joints must be rotary"
     assert np.allclose((np.array([ez,-ey,-ey,-ey,-ez,-ey]).T), H) or \
            np.allclose((np.array([ez,ey,ey,ey,-ez,ey]).T), H), \
            "Invalid UR robot format"
-- 
2.43.0


From 1c4d04df2707e74b6b5c2a4c3cdf24a47a0a40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:24 +0000
Subject: [PATCH 37/49] fix: TesseractRobot.invkin answered wrongly for base
 links that move with the joints

---
 src/general_robotics_toolbox/tesseract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 4afd8d4..619c8c4 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -923,6 +923,8 @@ class TesseractRobot:
             base_link_name = self.base_link_name
         if tip_link_name is None:
             tip_link_name = self.tip_link_name
+        # The solver silently uses the wrong pose for frames that move with the joints
+        assert base_link_name in list(kin_group.getAllValidWorkingFrames()), "Invalid base link " + base_link_name
         ik = KinGroupIKInput()
         ik.pose = transform_to_isometry3d(tip_link_pose)
         ik.tip_link_name = tip_link_name
-- 
2.43.0


From 112f1628f1512f67ee4838c4138551595155df03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:48 +0000
Subject: [PATCH 38/49] fix: OPW and UR parameters were returned for robots
 with prismatic joints

---
 src/general_robotics_toolbox/tesseract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 619c8c4..cbfa29b 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -638,6 +638,7 @@ def robot_to_opw_inv_kin_parameters(robot):
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
     assert len(robot.joint_type) == 6
+    assert np.all(np.equal(robot.joint_type, 0))
 
     def axis_sign(_h, _e):
         if np.allclose(_h, _e):
@@ -980,6 +981,8 @@ def robot_to_ur_inv_kin_parameters(robot):
     ey = np.array([0.,1.,0.])
     ez = np.array([0.,0.,1.])
 
+    assert np.all(np.equal(robot.joint_type, 0))
+
     minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
     plus_x = np.allclose(robot.H, np.array([ez,ey,ey,ey,-ez,ey]).T)
 
-- 
2.43.0


From bb759f16f32aa38594caa6e74973ff1e84e6474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:25 +0000
Subject: [PATCH 39/49] fix: URInvKin ignored the base of the robot when its
 chain starts at the base link

---
 src/general_robotics_toolbox/tesseract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index cbfa29b..c4c9392 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -542,7 +542,9 @@ def kinematics_plugin_info_dict(robot, robot_name, link_names, joint_names, chai
                 robot_name + "_flange", opw_params)
         elif invkin_solver == "URInvKin":
             ur_params = robot_to_ur_inv_kin_parameters(robot)
-            invkin_plugin_info, invkin_libs = kinematics_plugin_invkin_ur_plugin_info_dict(robot_name, base_link,
+            # The parameters include T_base, so the solver must not start after it
+            ur_base_link = "world" if base_link == chain_link_names[0] else base_link
+            invkin_plugin_info, invkin_libs = kinematics_plugin_invkin_ur_plugin_info_dict(robot_name, ur_base_link,
                 robot_name + "_flange", ur_params)
         else:
             assert False, "Unknown inverse kinematics solver"
-- 
2.43.0


From 40a12b5a16891f24b2c54e1a6f3c0cd175265eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:55 +0000
Subject: [PATCH 40/49] fix: fwdkin and robotjacobian refused joints within the
 limits given as an N x 1 array

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 50961ca..c6fa552 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -541,6 +541,8 @@ def fwdkin(robot, theta, _ignore_limits = False):
     :return: The Pose of the robot tool flange    
     """    
     
+    theta = np.reshape(theta,(-1,))
+
     if not _ignore_limits:
 
         if (robot.joint_lower_limit is not None and robot.joint_upper_limit is not None):
@@ -574,6 +576,8 @@ def robotjacobian(robot, theta, _ignore_limits = False):
     :returns: The 6 x N Jacobian matrix    
     """
     
+    theta = np.reshape(theta,(-1,))
+
     if not _ignore_limits:
         if (robot.joint_lower_limit is not None and robot.joint_upper_limit is not None):
             assert np.greater_equal(theta, robot.joint_lower_limit).all(), "Specified joints out of range"
-- 
2.43.0


From e0c0164127d354459cccc3e434d34a1e86562a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:57 +0000
Subject: [PATCH 41/49] fix: equivalent_configurations truncated the turns of
 whole number joints and failed for tuples

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index aa49c23..2ae4214 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -355,6 +355,7 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
     equiv_theta = []
     for theta1 in theta_v:
         equiv_theta1 = []
+        theta1 = np.array(theta1, dtype=np.float64)
         upper_div, _ = np.divmod(robot.joint_upper_limit - theta1, 2*np.pi)
         lower_div, _ = np.divmod(theta1 - robot.joint_lower_limit, 2*np.pi)
 
-- 
2.43.0


From 8cbf22992ba3a4be08d56e9f79069a36ff290be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:14 +0000
Subject: [PATCH 42/49] fix: equivalent_configurations returned configurations
 outside of the limits for given ones outside

---
 .../general_robotics_toolbox_invkin.py                        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 2ae4214..ac3b134 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -388,6 +388,10 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
     theta_ret =[]
 
     for eq_theta in equiv_theta:
+        # The configurations passed in may be outside of the limits
+        if np.any(eq_theta < np.subtract(robot.joint_lower_limit, 1e-9)) or \
+           np.any(eq_theta > np.add(robot.joint_upper_limit, 1e-9)):
+            continue
         if any(np.allclose(theta1, eq_theta) for theta1 in theta_v):
             continue
         theta_ret.append(eq_theta)
-- 
2.43.0


From fe7548bcb72ef0252c9062ba2f957857b6ae1573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:04 +0000
Subject: [PATCH 43/49] fix: OPW parameters were truncated for robots given in
 whole numbers

---
 src/general_robotics_toolbox/tesseract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index c4c9392..749d95f 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -663,8 +663,8 @@ def robot_to_opw_inv_kin_parameters(robot):
     else:
         assert np.allclose(robot.T_flange.R, np.eye(3))
 
-    H2 = np.copy(robot.H)
-    P2 = np.copy(robot.P)
+    H2 = np.array(robot.H, dtype=np.float64)
+    P2 = np.array(robot.P, dtype=np.float64)
 
     offset = np.zeros((6,))
     
-- 
2.43.0


From df2fdb2c9b72f149c06e1c1fc03dc78e2be447a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:13 +0000
Subject: [PATCH 44/49] fix: robots and joint vectors given in whole numbers
 were refused by the Tesseract functions

---
 src/general_robotics_toolbox/tesseract.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 749d95f..7efa5bd 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -101,7 +101,7 @@ def transform_to_isometry3d(T):
     :return : The converted transform
     """
     # TODO: Use better Isometry3d constructor
-    return Translation3d(T.p) * AngleAxisd(T.R)
+    return Translation3d(np.asarray(T.p, dtype=np.float64)) * AngleAxisd(np.asarray(T.R, dtype=np.float64))
 
 def isometry3d_to_transform(eig_iso):
     """
@@ -159,11 +159,11 @@ def get_link_and_joint(h, p, joint_type, joint_lower_limit, joint_upper_limit, j
     else:
         assert False, "Unsupported Tesseract joint type: " + str(joint.type)
     joint.parent_to_joint_origin_transform = transform_to_isometry3d(rox.Transform(np.eye(3), p))
-    joint.axis = h
+    joint.axis = np.asarray(h, dtype=np.float64)
     joint.parent_link_name = parent_link_name
     joint.child_link_name = link_name
-    joint.limits = JointLimits(joint_lower_limit, joint_upper_limit, joint_effort_limit,
-         joint_vel_limit, joint_acc_limit)
+    joint.limits = JointLimits(float(joint_lower_limit), float(joint_upper_limit), float(joint_effort_limit),
+         float(joint_vel_limit), float(joint_acc_limit))
     return link,joint
 
 def get_fixed_link_and_joint(T, link_name, joint_name, parent_link_name):
@@ -865,7 +865,7 @@ class TesseractRobot:
         :return: The pose of tip link in base frame
         """
         kin_group = self.tesseract_env.getKinematicGroup(self.robot_name)
-        frames = kin_group.calcFwdKin(theta)
+        frames = kin_group.calcFwdKin(np.asarray(theta, dtype=np.float64))
 
         if tip_link_name is None:
             tip_link_name = self.tip_link_name
@@ -899,7 +899,7 @@ class TesseractRobot:
         if link_name is None:
             link_name = self.tip_link_name
 
-        J_kdl =  kin_group.calcJacobian(theta, base_link_name, link_name)
+        J_kdl =  kin_group.calcJacobian(np.asarray(theta, dtype=np.float64), base_link_name, link_name)
 
         # KDL has vel on top, SOA has ang on top
         J = np.vstack((J_kdl[3:6,:],J_kdl[0:3,:]))
@@ -935,7 +935,7 @@ class TesseractRobot:
         iks = KinGroupIKInputs()
         iks.append(ik)
 
-        invkin1= kin_group.calcInvKin(iks,theta_seed)
+        invkin1= kin_group.calcInvKin(iks, np.asarray(theta_seed, dtype=np.float64))
 
         ret = []
         for i in range(len(invkin1)):
@@ -1085,6 +1085,6 @@ def redundant_solutions(tesseract_kin_group, theta):
     limits = tesseract_kin_group.getLimits()
     redundancy_indices = list(tesseract_kin_group.getRedundancyCapableJointIndices())
 
-    redun_sol = getRedundantSolutions(theta, limits.joint_limits, redundancy_indices)
+    redun_sol = getRedundantSolutions(np.asarray(theta, dtype=np.float64), limits.joint_limits, redundancy_indices)
 
     return [x.flatten() for x in redun_sol]
-- 
2.43.0


From af25d410afe7c927ac121a2c67cc19dffe7c9105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:22 +0000
Subject: [PATCH 45/49] fix: q2rot returned an axis that is not a unit vector
 close to full turns and small angles

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index c6fa552..cb781a8 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -206,11 +206,12 @@ def q2rot(q):
     :rtype:  (numpy.array, number)
     :return: the 3x1 rotation vector and theta    
     """
-    # Rounding can push the scalar part of a unit quaternion past 1
-    theta = 2 * np.arccos(np.clip(q[0], -1.0, 1.0))
-    if np.abs(theta) < 1e-6:
+    # The length of the vector part is accurate where q[0] is close to 1 or -1
+    sin_theta_2 = np.linalg.norm(q[1:4])
+    theta = 2 * np.arctan2(sin_theta_2, q[0])
+    if sin_theta_2 < 5e-7:
         return np.array([0,0,1]), 0.0
-    k = q[1:4]/np.sin(theta/2.0)
+    k = q[1:4]/sin_theta_2
     return k, theta
 
 def rot2q(k, theta):
-- 
2.43.0


From 03ad387cf687ab57bfd6cc05fd82780819c78065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:56 +0000
Subject: [PATCH 46/49] fix: subproblem1 lost rotations of short vectors and
 failed for zero vectors

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index cb781a8..a2ed177 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -698,7 +698,7 @@ def subproblem1(p, q, k):
     eps = np.finfo(np.float64).eps
     norm = np.linalg.norm
     
-    if norm (np.subtract(p, q)) < np.sqrt(eps):
+    if norm (np.subtract(p, q)) <= eps*norm(p):
         return 0.0
     
     
@@ -707,8 +707,8 @@ def subproblem1(p, q, k):
     pp = np.subtract(p,np.dot(p, k)*k)
     qp = np.subtract(q,np.dot(q, k)*k)
     
-    # p or q is along k, so every theta is a solution
-    if norm(pp) < np.sqrt(eps)*norm(p) or norm(qp) < np.sqrt(eps)*norm(q):
+    # p or q is zero or along k, so every theta is a solution
+    if norm(pp) <= np.sqrt(eps)*norm(p) or norm(qp) <= np.sqrt(eps)*norm(q):
         return 0.0
     
     epp = np.divide(pp, norm(pp))    
-- 
2.43.0


From 907ae2abec901c7d3ef187df661c50a4ed69ac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:56 +0000
Subject: [PATCH 47/49] fix: subproblem2 lost solutions for short vectors

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index a2ed177..2b5e80e 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -764,14 +764,14 @@ def subproblem2(p, q, k1, k2):
     
     bb = (np.dot(p,p) - np.dot(a,a) - 2*a[0]*a[1]*k12)
     # Tangent cones, allow for rounding
-    if (bb < 0 and bb > -1e-13*np.dot(p,p)) or (np.abs(bb) < eps): bb=0
+    if (bb < 0 and bb > -1e-13*np.dot(p,p)) or (np.abs(bb) < max(eps*np.dot(p,p), 1e-24)): bb=0
     
     if (bb < 0):
         warnings.warn("No solution - no intersection found between cones")
         return []
     
     gamma = np.sqrt(bb) / norm(np.cross(k1,k2))
-    if (np.abs(gamma) < eps):
+    if (np.abs(gamma) <= eps*norm(p)):
         cm=np.array([k1, k2, np.cross(k1,k2)]).T
         c1 = np.dot(cm, np.hstack((a, gamma)))
         theta2 = subproblem1(p, c1, k2)
-- 
2.43.0


From 7294f57a2831d56e941baeea8d5134757efa03c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:45 +0000
Subject: [PATCH 48/49] fix: subproblem2 lost solutions for very short vectors

The tangency tolerance had an absolute part, which is large compared with
the squares of vectors of a micrometre.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 2b5e80e..e84b649 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -764,7 +764,7 @@ def subproblem2(p, q, k1, k2):
     
     bb = (np.dot(p,p) - np.dot(a,a) - 2*a[0]*a[1]*k12)
     # Tangent cones, allow for rounding
-    if (bb < 0 and bb > -1e-13*np.dot(p,p)) or (np.abs(bb) < max(eps*np.dot(p,p), 1e-24)): bb=0
+    if (bb < 0 and bb > -1e-13*np.dot(p,p)) or (np.abs(bb) < eps*np.dot(p,p)): bb=0
     
     if (bb < 0):
         warnings.warn("No solution - no intersection found between cones")
-- 
2.43.0


From 1d8d98a9de3b26bc715082eacf563de5dea287c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:56 +0000
Subject: [PATCH 49/49] fix: iterative inverse kinematics lost precision after
 steps of many turns

---
 .../general_robotics_toolbox_invkin.py                         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index ac3b134..9b55c6e 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -499,6 +499,9 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
         if not converged:
             # Update for next iteration
             q_cur = q_cur - delta.reshape((num_joints,1))
+            # A step close to a singularity can be many turns long. Take out the turns now,
+            # so the convergence check and the result are about the same configuration
+            q_cur = np.reshape(normalize(np.arange(num_joints), [q_cur.flatten()])[0], (num_joints,1))
 
         itr += 1 # Increase the iteration
 
-- 
2.43.0

