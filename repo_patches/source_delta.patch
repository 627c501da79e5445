From 572677b531d882cdf7d9cd14e0959b603df28e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 01/63] fix: expand the twist exponential to second order for
 small angles

The first-order expansion lost orthogonality at every step, so that a
free joint rotating slowly ended with a pose that is not a rotation.
---
 arboris/twistvector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/twistvector.py b/arboris/twistvector.py
index c05ec07..a7a4d50 100644
--- a/arboris/twistvector.py
+++ b/arboris/twistvector.py
@@ -66,9 +66,9 @@ def exp(tw):
         sc = sin(t)/t
         dsc = (t-sin(t))/t**3
     else:
-        cc = 1./2.
+        cc = 1./2.-t**2/24.
         sc = 1.-t**2/6.
-        dsc = 1./6.
+        dsc = 1./6.-t**2/120.
 
     R = eye(3) + sc*wx + cc*dot(wx, wx)
     p = dot(sc*eye(3) + cc*wx + dsc*outer(w,w), v)
-- 
2.43.0


From 05ef96c52aa915a81fc66eaebd66dc0a6126bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 02/63] fix: express the inverse motion twist in the reference
 frame

T_rn is -Ad_rn T_nr. Using Ad_nr made idadjoint, hence the jacobian
derivatives and the nonlinear effects, wrong behind multi-dof joints.
---
 arboris/rigidmotion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/rigidmotion.py b/arboris/rigidmotion.py
index 48926cc..c76d905 100644
--- a/arboris/rigidmotion.py
+++ b/arboris/rigidmotion.py
@@ -46,7 +46,7 @@ class RigidMotion(object):
 
     @property
     def itwist(self):
-        return -dot(self.iadjoint, self.twist)
+        return -dot(self.adjoint, self.twist)
 
     @property
     def adjoint(self):
-- 
2.43.0


From b624935476695f3e4b7d6ddbe668ba9ea0089e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 03/63] fix: locate plane contacts relative to the ground

The contact frames were left in the plane frame, the sphere contact
point was on the wrong side of a penetrating sphere, and planes whose
normalized coefficients have a norm that rounds off 1 were refused.
---
 arboris/collisions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index eee6548..85103c2 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy.linalg import norm
-from numpy        import zeros, argmin, dot, sign, arange
+from numpy        import zeros, argmin, dot, arange
 import arboris.homogeneousmatrix as Hg
 from   arboris.core   import Shape
 from   arboris.shapes import Plane, Point, Box, Sphere
@@ -277,16 +277,17 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
 
     """
     assert Hg.ishomogeneousmatrix(H_g0)
-    assert norm(coeffs0[0:3]) == 1.
+    assert abs(norm(coeffs0[0:3]) - 1.) < 1e-9
     assert radius1 >= 0.
-    normal = coeffs0[0:3] # the plane normal
     p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
-    csdist = dot(normal, p_01) - coeffs0[3] # signed distance from the center
+    # signed distance from the center
+    csdist = dot(coeffs0[0:3], p_01) - coeffs0[3]
     sdist = csdist - radius1
+    normal = Hg.vdot(H_g0, coeffs0[0:3]) # the plane normal
     H_gc0 = Hg.zaligned(normal)
-    H_gc0[0:3, 3] = p_01 - csdist * normal
+    H_gc0[0:3, 3] = p_g1 - csdist * normal
     H_gc1 = H_gc0.copy()
-    H_gc1[0:3, 3] = p_01 - sign(sdist) * radius1 * normal
+    H_gc1[0:3, 3] = p_g1 - radius1 * normal
     return (sdist, H_gc0, H_gc1)
 
 def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
-- 
2.43.0


From c51c885f4a21a68c258f87eeac8066e5646111dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 04/63] fix: rotate the box contact normal to the ground

When the sphere center is inside a box that is not aligned with the
ground, the contact normal was left in the box frame.
---
 arboris/collisions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 85103c2..feb22c2 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -375,21 +375,20 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
         else:
             f_0[i-3] = -half_extents0[i-3]
             normal[i-3] = -1 #TODO check this line is correct
-        f_g = Hg.pdot(H_g0, f_0)
-        sdist = -norm(f_g - p_g1)-radius1
+        sdist = -norm(f_0 - p_01)-radius1
     else:
         # find the point x inside the box that is the nearest to
         # the sphere center:
         f_0 = zeros(3)
         for i in arange(3):
             f_0[i] = max(min(half_extents0[i], p_01[i]), -half_extents0[i])
-        f_g = Hg.pdot(H_g0, f_0)
-        vec = p_g1 - f_g
+        vec = p_01 - f_0
         normal = vec/norm(vec)
         sdist = norm(vec) - radius1
+    normal = Hg.vdot(H_g0, normal)
     H_gc0 = Hg.zaligned(normal)
     H_gc1 = H_gc0.copy()
-    H_gc0[0:3, 3] = f_g
+    H_gc0[0:3, 3] = Hg.pdot(H_g0, f_0)
     H_gc1[0:3, 3] = p_g1 - radius1*normal
     return (sdist, H_gc0, H_gc1)
 
-- 
2.43.0


From b3c4e2e5bd9c1b1bfea4d844a30db5b656639d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 05/63] fix: find the box/point solver whatever the shapes
 order

---
 arboris/collisions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index feb22c2..ca202ef 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -58,6 +58,9 @@ def choose_solver(shape0, shape1):
         elif isinstance(shape1, Plane):
             shapes = (shape1, shape0)
             solver = plane_point_collision
+        elif isinstance(shape1, Box):
+            shapes = (shape1, shape0)
+            solver = box_point_collision
         else:
             raise NotImplementedError()
     elif isinstance(shape0, Plane):
-- 
2.43.0


From 2166db3fcbe35e7b657cc911ec6f805aa36f056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 06/63] fix: let a PD controller drive joints with different
 numbers of dof

---
 arboris/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index 11bcbcd..d794418 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -175,8 +175,8 @@ class ProportionalDerivativeController(Controller):
         gpos = []
         gvel = []
         for j in self.joints:
-            gpos.append(j.gpos)
-            gvel.append(j.gvel)
+            gpos.extend(j.gpos)
+            gvel.extend(j.gvel)
         gpos = array(gpos).reshape(self._cndof)
         gvel = array(gvel).reshape(self._cndof)
         gforce[self._dof_map] = \
-- 
2.43.0


From 6311d974645dfde31258ba24208b9e6fbc948d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 07/63] fix: raise DuplicateNameError from as_dict, not
 TypeError

---
 arboris/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 3417700..452e5a9 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -125,7 +125,8 @@ class NamedObjectsList(list):
                 if obj.name not in result:
                     result[obj.name] = obj
                 else:
-                    raise DuplicateNameError()
+                    raise DuplicateNameError(
+                        'Duplicated name: "{0}".'.format(obj.name))
         return result
 
 
-- 
2.43.0


From c37db4935cd3c498936046d9135736b9d8f4358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 08/63] fix: detect duplicated names when given an iterator

---
 arboris/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/core.py b/arboris/core.py
index 452e5a9..d1731da 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -140,6 +140,7 @@ class DuplicateNameError(Exception):
 
 
 def name_all_elements(nlist, check_unicity=False):
+    nlist = list(nlist) # it may be an iterator
     # give a unique name for all unnamed elements
     for elem in nlist: 
         if elem.name is None:
-- 
2.43.0


From f5363ffe1cd2ccac910aa2d203ab2d266b506685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 09/63] fix: save the state and the model in hdf5 files

---
 arboris/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 9ae2896..f14d50f 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -393,7 +393,7 @@ class Hdf5Logger(SaveLogger):
         for elem in group_elements:
             g = self._h5_root.require_group(elem)
             for k, v in self._root[elem].items():
-                dset = g.require_dataset(k, (self._nb_steps, 4,4), "f8")
+                dset = g.require_dataset(k, v.shape, "f8")
                 dset[:] = v
 
         self._file.close()
-- 
2.43.0


From 689f1800bf400fc08de5afb1dd5ffd3059ad851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 10/63] fix: monitor the energy of worlds with massless bodies

---
 arboris/observers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index f14d50f..3a6eda3 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -4,7 +4,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>",
               "Joseph SALINI <joseph.salini@gmail.com>")
 
-from numpy import dot, zeros, arange
+from numpy import array, dot, zeros, arange
 
 from arboris.core import Observer, MovingSubFrame, name_all_elements
 from arboris.massmatrix import principalframe
@@ -62,7 +62,11 @@ class EnergyMonitor(Observer):
         self._com_pos           = {}
         self._bodies = self._world.ground.iter_descendant_bodies
         for body in self._bodies():
-            self._com_pos[body]  = principalframe(body.mass)[:, 3]
+            if body.mass[5, 5] > 0:
+                self._com_pos[body] = principalframe(body.mass)[:, 3]
+            else:
+                # no mass, no center of mass nor potential energy
+                self._com_pos[body] = array((0., 0., 0., 1.))
 
     def update(self, dt):
         self.time.append(self._world.current_time)
-- 
2.43.0


From 70c1bb0a3a9103b6713cbb5bb7e6f65c2e8b88d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 11/63] fix: do not share the pose given to a subframe

Moving a subframe wrote in the array given at its creation, and thus
moved the other subframes created from it.
---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index d1731da..63da45c 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1115,7 +1115,7 @@ class _SubFrame(NamedObject, Frame):
             bpose = eye(4)
 
         assert Hg.ishomogeneousmatrix(bpose)
-        self._bpose = bpose
+        self._bpose = array(bpose, dtype=float)
         if not(isinstance(body, Body)):
             raise ValueError(
             "The ``body`` argument must be an instance of the ``Boby`` class")
-- 
2.43.0


From 274351ed08dd18b0bf8f22ed5f215da4e392b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 12/63] fix: integrate joints created with integer positions

---
 arboris/core.py   | 4 ++--
 arboris/joints.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 63da45c..d9b3dfb 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -281,11 +281,11 @@ class LinearConfigurationSpaceJoint(Joint):
         if gpos is None:
             self.gpos = zeros(self.ndof)
         else:
-            self.gpos = array(gpos).reshape((self.ndof))
+            self.gpos = array(gpos, dtype=float).reshape((self.ndof))
         if gvel is None:
             self.gvel = zeros(self.ndof)
         else:
-            self.gvel = array(gvel).reshape((self.ndof))
+            self.gvel = array(gvel, dtype=float).reshape((self.ndof))
 
     def integrate(self, gvel, dt):
         self.gvel = gvel
diff --git a/arboris/joints.py b/arboris/joints.py
index 7e39625..67fffab 100644
--- a/arboris/joints.py
+++ b/arboris/joints.py
@@ -38,8 +38,8 @@ class FreeJoint(Joint):
             gpos = eye(4)
         if gvel is None:
             gvel = zeros((6))
-        self.gpos = array(gpos).reshape((4, 4))
-        self.gvel = array(gvel).reshape((6))
+        self.gpos = array(gpos, dtype=float).reshape((4, 4))
+        self.gvel = array(gvel, dtype=float).reshape((6))
 
     @property
     def ndof(self):
-- 
2.43.0


From 75259f4ff631c1daa1e24da28d9068ddf4c85a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 13/63] fix: refuse links that close a loop, and leave the
 world untouched

A refused link used to leave its joint attached, and a link to the
ground or to an ancestor was accepted, making the world traversals
recurse endlessly.
---
 arboris/core.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index d9b3dfb..0c41918 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -528,13 +528,17 @@ class World(NamedObject):
         assert joint.frame0 is None
         assert joint.frame1 is None
         assert len(args) % 3 == 0
-        joint.set_frames(frame0, frame1)
-        if frame1.body.parentjoint is None:
-            frame1.body.parentjoint = joint
-        else:
+        if frame1.body.parentjoint is not None:
             raise ValueError("frame1's body already has a parent joint, " + \
             "which means you're probably trying to create a kinematic loop." + \
             "Try using a constraint instead.")
+        if frame1.body is self.ground or frame1.body is frame0.body or \
+           frame1.body in frame0.body.iter_ancestor_bodies():
+            raise ValueError("frame1's body is the ground or an ancestor of " + \
+            "frame0's body, which would create a kinematic loop. " + \
+            "Try using a constraint instead.")
+        joint.set_frames(frame0, frame1)
+        frame1.body.parentjoint = joint
         frame0.body.childrenjoints.append(joint)
         self.register(frame0)
         self.register(frame1)
-- 
2.43.0


From d83e5635ea93d72c148a9999bfcc17d4df8f2364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 14/63] fix: leave the world untouched when a joint replacement
 is refused

---
 arboris/core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/arboris/core.py b/arboris/core.py
index 0c41918..62668e7 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -579,6 +579,17 @@ class World(NamedObject):
             body1 = args[-1].body
             assert old_joint.frame0.body is body0
             assert old_joint.frame1.body is body1
+            # check the new links before touching the tree
+            new_joints = args[1::3]
+            assert len(set(new_joints)) == len(new_joints)
+            for joint in new_joints:
+                assert isinstance(joint, Joint)
+                assert joint is old_joint or joint.frames == (None, None)
+            for frame in args[2:-1:3]:
+                if frame.body is self.ground or \
+                   frame.body.parentjoint is not None:
+                    raise ValueError("the bodies of the new kinematic chain " + \
+                    "should not already belong to the world.")
             body1.parentjoint = None
             old_joint.set_frames(None, None)
             self.add_link(*args)
-- 
2.43.0


From 04ef60d67045d223054a7c9fc87de47cef412757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 15/63] fix: return a rotation from principalframe for repeated
 inertias

The eigenvectors computed for a nonsymmetric matrix are not orthogonal
when an eigenvalue is repeated, as for cylinders or spheres.
---
 arboris/massmatrix.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index 7d3ef47..51c555d 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -5,8 +5,8 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 import arboris.homogeneousmatrix as Hg
-from   numpy        import diag, eye, dot, array, allclose
-from   numpy.linalg import eig, eigvals, det
+from   numpy        import diag, eye, dot, array, allclose, argmax, argsort
+from   numpy.linalg import eigh, eigvals, det
 
 def ismassmatrix(M, semi=False):
     """ Check whether M is a valid mass matrix.
@@ -98,11 +98,12 @@ def principalframe(M):
     H = eye(4)
     H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]
     RSR = M[0:3, 0:3] + m*dot(rx, rx)
-    [S, R] = eig(RSR)
+    [S, R] = eigh(RSR)
+    # sort the axes, so that those of a diagonal inertia are left unchanged
+    R = R[:, argsort(argmax(abs(R), axis=0), kind='mergesort')]
     if det(R)<0.:
         iI = array([[0, 0, 1], [0, 1, 0], [1, 0, 0]])
         R = dot(R, iI)
-        S = dot(iI, dot(S, iI))
     H[0:3, 0:3] = R
     return H
 
-- 
2.43.0


From 22da9b10c9235e135d9c655fb5266a4a9819cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 16/63] fix: accept semi-definite mass matrices in any frame

The null eigenvalues of the mass matrix of a point mass or of a thin rod
are often computed as slightly negative, and the body was refused.
---
 arboris/massmatrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index 51c555d..549f673 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -6,7 +6,7 @@ __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 import arboris.homogeneousmatrix as Hg
 from   numpy        import diag, eye, dot, array, allclose, argmax, argsort
-from   numpy.linalg import eigh, eigvals, det
+from   numpy.linalg import eigh, eigvals, eigvalsh, det
 
 def ismassmatrix(M, semi=False):
     """ Check whether M is a valid mass matrix.
@@ -21,7 +21,8 @@ def ismassmatrix(M, semi=False):
     common = M.shape == (6, 6) and allclose(M, M.T) and \
             allclose(M[3:6, 3:6], M[3,3]*eye(3))
     if semi:
-        return common and (eigvals(M) >= 0.).all()
+        # null eigenvalues may be computed as slightly negative
+        return common and (eigvalsh(M) >= -1e-12*abs(M).max()).all()
     else:
         return common and (eigvals(M) > 0.).all()
 
-- 
2.43.0


From 359003c8600975fbbf51fa29dc1a041a2015e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 17/63] fix: recognize adjoint matrices whose determinant
 rounds off 1

---
 arboris/adjointmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/adjointmatrix.py b/arboris/adjointmatrix.py
index ccddcb0..b359ec8 100644
--- a/arboris/adjointmatrix.py
+++ b/arboris/adjointmatrix.py
@@ -24,7 +24,7 @@ import numpy as np
 def isadjointmatrix(Ad):
     """ Return true if *Ad* is an adjoint matrix. """
     return (Ad.shape == (6, 6)) and (
-        np.linalg.det(Ad[0:3, 0:3])==1) and (
+        abs(np.linalg.det(Ad[0:3, 0:3])-1) <= 1e-9) and (
         Ad[0:3, 0:3]==Ad[3:6, 3:6]).all() and (
         Ad[0:3, 3:6]==np.zeros((3, 3))).all()
 
-- 
2.43.0


From f901339b9aa2e8069ce546dc06ba5a938fb780f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 18/63] fix: draw the moving subframes of a flat world relative
 to the ground

---
 arboris/visu/world_drawer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index d6871d9..0e732ff 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -4,6 +4,7 @@ from math import floor
 from numpy.linalg import norm, inv
 from numpy import arange
 import arboris.core
+import arboris.shapes
 
 def hsv_to_rgb(hsv):
     """Convert color from hsv to rgb.
@@ -370,7 +371,7 @@ class Drawer(object):
             color = self._color_generator.get_color(obj)
             if self._flat is True:
                 node = self._add_frame(self._ground_node,
-                    obj.bpose, False, obj.name, color)
+                    obj.pose, False, obj.name, color)
             else:
                 node = self._add_frame(self.frame_nodes[obj.body],
                     obj.bpose, False, obj.name, color)
-- 
2.43.0


From dfbfce855a1a7277002347a9f9caf5ea2dd8d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 19/63] fix: forget the former simulation when PerfMonitor is
 reused

---
 arboris/observers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/observers.py b/arboris/observers.py
index 3a6eda3..b2af523 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -133,6 +133,7 @@ class PerfMonitor(Observer):
 
     def init(self, world, timeline):
         self._world     = world
+        self._computation_time = []
         self._last_time = _time()
 
     def update(self, dt):
-- 
2.43.0


From da04070b588c4657b5e9da8d21d32f549ca36201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 20/63] fix: end the simulation when the socket peer is gone or
 never came

SocketCom.finish sent a str, which sockets refuse, and failed without a
connection.
---
 arboris/observers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index b2af523..00567d0 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -447,10 +447,12 @@ class SocketCom(Observer):
 
     def finish(self):
         try:
-            self.conn.send("close_connection")
-            self.s.close()
+            if self.conn is not None:
+                self.conn.send(b"close_connection")
         except socket.error:
             pass
+        finally:
+            self.s.close()
 
 
 
-- 
2.43.0


From 97de9ad73eb79777ff67d795e21cbb02bb5c3b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 21/63] fix: enforce the limits of each dof of a joint
 separately

A joint with several dof had its max limits ignored as soon as one of its
dof violated a min limit, and the coupling between its dof was lost when
clipping the forces.
---
 arboris/constraints.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index eacbe42..0189ee1 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -73,23 +73,28 @@ class JointLimits(Constraint):
 
     def solve(self, vel, admittance, dt):
         pred = self._pos0 + dt*(vel - dot(admittance, self._force))
-        prev_force = self._force.copy()
-        # pos = self._pos0 + dt*(vel + admittance*dforce)
-        if (pred <= self._min).any():
-            # the min limit is violated, we want pos == min
-            self._force = dot(pinv(admittance), (self._min - pred)/dt)
-            self._force = self._force.clip(min=0)
-            dforce = self._force - prev_force
-        elif (self._max <= pred).any():
-            #the max limit is violated, we want pos == max
-            self._force = dot(pinv(admittance), (self._max - pred)/dt)
-            self._force = self._force.clip(max=0)
-            dforce = self._force - prev_force
-        else:
-            # the joint is within its limits, we ensure the
-            # generalized force is zero
-            dforce = -self._force
-            self._force[:] = 0.
+        force = self._force.copy()
+        # pos = pred + dt*admittance*force
+        for k in arange(1000):
+            previous = force.copy()
+            for i in arange(len(force)):
+                y = dt*admittance[i, i]
+                # position of the dof without the force on this very dof
+                pos = pred[i] + dt*dot(admittance[i, :], force) - y*force[i]
+                if pos <= self._min[i]:
+                    # the min limit is violated, we want pos == min
+                    force[i] = (self._min[i] - pos)/y
+                elif self._max[i] <= pos:
+                    #the max limit is violated, we want pos == max
+                    force[i] = (self._max[i] - pos)/y
+                else:
+                    # the dof is within its limits, we ensure the
+                    # generalized force is zero
+                    force[i] = 0.
+            if (abs(force - previous) <= 1e-12*abs(force)).all():
+                break
+        dforce = force - self._force
+        self._force = force
         return dforce
 
 class BallAndSocketConstraint(Constraint):
-- 
2.43.0


From b9d05c8616816d5026506e465ee41610b844c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 22/63] fix: solve the sliding contacts with the right friction
 law

The blocks of the B matrix are outer products (dot() on vectors gives
scalars), one had the wrong sign, and contacts without friction or with
several real eigenvalues raised or pulled.
---
 arboris/constraints.py | 48 ++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 0189ee1..ec9911e 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -6,7 +6,8 @@
 
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
-from numpy        import array, zeros, eye, dot, diag, logical_and, arange
+from numpy        import array, zeros, eye, dot, diag, logical_and, arange, \
+                         outer
 from numpy.linalg import solve, eigvals, pinv
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
@@ -758,7 +759,7 @@ class SoftFingerContact(PointContact):
                 0 & 0 & 0 & 0 & 0 & e_y^2
             \end{bmatrix}
             \begin{bmatrix}
-                Y_t - Y_c\;Y_c\tp/y_n + 2 \frac{\beta b\tp}{a}
+                Y_t - Y_c\;Y_c\tp/y_n - 2 \frac{\beta b\tp}{a}
                     & -\frac{\beta \beta\tp}{a^2} \\
                 b b\tp -
                 \begin{bmatrix}
@@ -789,7 +790,7 @@ class SoftFingerContact(PointContact):
 
         """
         vel_no_force = vel - dot(admittance, self._force)
-        if self._sdist + dt*vel_no_force[3] > 0:
+        if self._sdist + dt*vel_no_force[3] >= 0:
             # if there is no contact, the contact force should be 0
             dforce = -self._force
             self._force[:] = 0.
@@ -808,7 +809,8 @@ class SoftFingerContact(PointContact):
             dforce = dot(-pinv(admittance), zero_tan_vel)
             force = self._force + dforce
 
-            if sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
+            if force[3] >= 0. and \
+               sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
                 # the elliptic dry friction law is respected.
                 self._force = force
                 return dforce
@@ -824,27 +826,37 @@ class SoftFingerContact(PointContact):
                 beta = alpha[0:3] - alpha[3]/y_n*Y_c
                 a = self._mu/y_n * alpha[3]
                 b = self._mu/y_n * Y_c
+                if a == 0.:
+                    # there is no friction
+                    force = array([0., 0., 0., -alpha[3]/y_n])
+                    dforce = force - self._force
+                    self._force = force
+                    return dforce
                 B = zeros((6, 6))
                 E = diag(self._eps**2)
-                Y_that = Y_t - dot(Y_c, Y_c.T)/y_n
+                Y_that = Y_t - outer(Y_c, Y_c)/y_n
                 B[3:6, 3:6] = dot(E, Y_that)
-                B[0:3, 0:3] = dot(E, Y_that + 2/a*dot(beta, b.T))
-                B[0:3, 3:6] = -dot(E, dot(beta, beta.T)/(a**2))
-                B[3:6, 0:3] = dot(E, dot(b, b.T)) - eye(3)
+                B[0:3, 0:3] = dot(E, Y_that - 2/a*outer(beta, b))
+                B[0:3, 3:6] = -dot(E, outer(beta, beta)/(a**2))
+                B[3:6, 0:3] = dot(E, outer(b, b)) - eye(3)
 
                 # s is the real part of the eigenvalue with the smallest
                 # imaginary par within those with a positive real part
                 S = eigvals(B)
-                S = S[logical_and(S.imag == 0, S.real <= 0)]
-                if len(S)==0:
-                    s = -1e10 #TODO: log when len(S)==0
-                else:
-                    s = max(min(S), -1e10) #TODO: log when |s|>=1e10
-                prev_force = self._force.copy()
-                A = admittance.copy()
-                A[0:3, 0:3] -= s*diag(self._eps**-2)
-                self._force = solve(A, -alpha)
-                dforce = self._force - prev_force
+                # (with a singular admittance, some eigenvalues are only
+                # rounded zeros and do not fulfill the friction law)
+                s_max = -1e-9*abs(diag(Y_t)).sum()
+                S = S[logical_and(S.imag == 0, S.real < s_max)].real
+                for s in sorted(S) + [-1e10]: #TODO: log when s==-1e10
+                    s = max(s, -1e10) #TODO: log when |s|>=1e10
+                    A = admittance.copy()
+                    A[0:3, 0:3] -= s*diag(self._eps**-2)
+                    force = solve(A, -alpha)
+                    if force[3] >= 0. and sum((force[0:3]/self._eps)**2) <= \
+                       (1 + 1e-6)*(force[3]*self._mu)**2:
+                        break
+                dforce = force - self._force
+                self._force = force
                 return dforce
 
 
-- 
2.43.0


From a1c6cd22c8af6084c7e8b54d841bbc6eff43f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 23/63] fix: solve the joint limits exactly, whatever the
 gyroscopic coupling

The sweeps over the dofs of a joint could diverge at high velocities, when
the admittance is not symmetric.
---
 arboris/constraints.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index ec9911e..ecdfd83 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy        import array, zeros, eye, dot, diag, logical_and, arange, \
-                         outer
+                         outer, where, ix_
 from numpy.linalg import solve, eigvals, pinv
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
@@ -74,26 +74,30 @@ class JointLimits(Constraint):
 
     def solve(self, vel, admittance, dt):
         pred = self._pos0 + dt*(vel - dot(admittance, self._force))
-        force = self._force.copy()
-        # pos = pred + dt*admittance*force
+        # each dof is either held at its min limit (-1), at its max limit (1)
+        # or free (0). The first dof which is wrong is changed, until all of
+        # them fulfill the Signorini conditions.
+        mode = zeros(len(pred), int)
         for k in arange(1000):
-            previous = force.copy()
-            for i in arange(len(force)):
-                y = dt*admittance[i, i]
-                # position of the dof without the force on this very dof
-                pos = pred[i] + dt*dot(admittance[i, :], force) - y*force[i]
-                if pos <= self._min[i]:
-                    # the min limit is violated, we want pos == min
-                    force[i] = (self._min[i] - pos)/y
-                elif self._max[i] <= pos:
-                    #the max limit is violated, we want pos == max
-                    force[i] = (self._max[i] - pos)/y
-                else:
-                    # the dof is within its limits, we ensure the
-                    # generalized force is zero
-                    force[i] = 0.
-            if (abs(force - previous) <= 1e-12*abs(force)).all():
+            held = mode.nonzero()[0]
+            goal = where(mode < 0, self._min, self._max)
+            force = zeros(len(pred))
+            force[held] = dot(pinv(admittance[ix_(held, held)]),
+                              (goal[held] - pred[held])/dt)
+            pos = pred + dt*dot(admittance, force)
+            wrong = ((mode == 0) & ((pos < self._min) | (self._max < pos))) | \
+                    (mode*force > 0.)
+            if not wrong.any():
                 break
+            i = wrong.nonzero()[0][0]
+            if mode[i] != 0:
+                mode[i] = 0
+            elif pos[i] < self._min[i]:
+                # the min limit is violated, we want pos == min
+                mode[i] = -1
+            else:
+                # the max limit is violated, we want pos == max
+                mode[i] = 1
         dforce = force - self._force
         self._force = force
         return dforce
-- 
2.43.0


From 614f9ca5b115cf5baa5a9a8db606ac14f7bf978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 24/63] fix: friction law of the sliding contacts when the
 admittance is not symmetric

The non-linear effects make it non symmetric: the sliding force was not on
the cone of friction.
---
 arboris/constraints.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index ecdfd83..3f7ae41 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -824,12 +824,14 @@ class SoftFingerContact(PointContact):
                 #
                 alpha = vel - dot(admittance, self._force)
                 alpha[3] += self._sdist/dt
+                # (the non-linear effects make the admittance non symmetric)
                 Y_c = admittance[0:3, 3]
+                Y_r = admittance[3, 0:3]
                 y_n = admittance[3, 3]
                 Y_t = admittance[0:3, 0:3]
                 beta = alpha[0:3] - alpha[3]/y_n*Y_c
                 a = self._mu/y_n * alpha[3]
-                b = self._mu/y_n * Y_c
+                b = self._mu/y_n * Y_r
                 if a == 0.:
                     # there is no friction
                     force = array([0., 0., 0., -alpha[3]/y_n])
@@ -838,8 +840,8 @@ class SoftFingerContact(PointContact):
                     return dforce
                 B = zeros((6, 6))
                 E = diag(self._eps**2)
-                Y_that = Y_t - outer(Y_c, Y_c)/y_n
-                B[3:6, 3:6] = dot(E, Y_that)
+                Y_that = Y_t - outer(Y_c, Y_r)/y_n
+                B[3:6, 3:6] = dot(E, Y_that.T)
                 B[0:3, 0:3] = dot(E, Y_that - 2/a*outer(beta, b))
                 B[0:3, 3:6] = -dot(E, outer(beta, beta)/(a**2))
                 B[3:6, 0:3] = dot(E, outer(b, b)) - eye(3)
-- 
2.43.0


From 766f4767f48663ec7c28f3008fbbf526b461bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 25/63] fix: derivative of the CoM jacobian of bodies with an
 offset center of mass

The velocity of the body frame with regard to its center of mass was
neglected.
---
 arboris/observers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 00567d0..6294a41 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -4,7 +4,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>",
               "Joseph SALINI <joseph.salini@gmail.com>")
 
-from numpy import array, dot, zeros, arange
+from numpy import array, dot, zeros, arange, cross
 
 from arboris.core import Observer, MovingSubFrame, name_all_elements
 from arboris.massmatrix import principalframe
@@ -515,8 +515,10 @@ class CoMObserver(Observer):
                 self._CoMJacobian[:] += self.mass[i] * dot(Ad_com2_body, self.bodies[i].jacobian)[3:6,:]
 
                 ##### For dJacobian
+                # (com2 follows the CoM without rotating)
                 T_com2_body = self.bodies[i].twist.copy()
-                T_com2_body[3:6] = 0.
+                T_com2_body[3:6] = cross(self.H_body_com[i][0:3, 3],
+                                         T_com2_body[0:3])
                 dAd_com2_body = dAdjoint(Ad_com2_body, T_com2_body)
                 dJ_com2 = dot(Ad_com2_body, self.bodies[i].djacobian) + dot(dAd_com2_body, self.bodies[i].jacobian)
                 self._CoMdJacobian[:] += self.mass[i] * dJ_com2[3:6,:]
-- 
2.43.0


From fa107ed56049f50b2b154ea3864fe46878480b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 26/63] fix: suprasternale at the middle of the two
 sternoclavicular joints

The left lengths were used twice, so that the tag of a human with different
left and right lengths was misplaced.
---
 arboris/robots/human36.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/human36.py b/arboris/robots/human36.py
index 64fc054..b43bf39 100644
--- a/arboris/robots/human36.py
+++ b/arboris/robots/human36.py
@@ -374,7 +374,7 @@ def add_human36(world, height=1.741, mass=73, anat_lengths=None, prefix=''):
     add_tag('Left great trochanter', "ThighL",  [0, 0, -0.0941*h+L['zhip']/2.])
     add_tag('Left iliac crest', "LPT", [0.0271*h, 0.0366*h, -0.0697*h])
     add_tag('Substernale (Xyphoid)', "UPT", [0.1219*h, 0, 0])
-    add_tag('Suprasternale', "UPT", [(L['xsternoclavL']+L['xsternoclavL'])/2., (L['ysternoclavL']+L['ysternoclavL'])/2., 0])
+    add_tag('Suprasternale', "UPT", [(L['xsternoclavR']+L['xsternoclavL'])/2., (L['ysternoclavR']+L['ysternoclavL'])/2., 0])
     add_tag('Right acromion', "ScapulaR", [-L['xshoulderR'], 0.0198*h+L['yshoulderR'], L['zshoulderR']])
     add_tag('Right humeral lateral epicondyle (radiale)', "ArmR", [0., -L['yhumerusR'], 0.0211*h])
     add_tag('Right stylion', "ForearmR", [0., -0.1533*h, 0.0331*h])
-- 
2.43.0


From 25dc301c84948caf5f607627a4b1e1572f10fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 27/63] fix: keep the friction force when the static solution
 is on the cone

When the static solution was rejected by a rounding error only, no sliding
solution existed and the contact lost all of its friction.
---
 arboris/constraints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 3f7ae41..ee633c8 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -814,8 +814,10 @@ class SoftFingerContact(PointContact):
             force = self._force + dforce
 
             if force[3] >= 0. and \
-               sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
-                # the elliptic dry friction law is respected.
+               sum((force[0:3]/self._eps)**2) <= \
+               (1 + 1e-6)*(force[3]*self._mu)**2:
+                # the elliptic dry friction law is respected (up to the
+                # rounding errors: there is no sliding solution on the cone).
                 self._force = force
                 return dforce
             else:
-- 
2.43.0


From 411739a2fe16972e7a5e08241ae84f75c91acf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 28/63] fix: refuse a moving subframe named like a saved
 transform

Its values silently replaced those of the body (or of the joint) in the
transforms of the log.
---
 arboris/observers.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 6294a41..cc6cbd2 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -266,15 +266,19 @@ class SaveLogger(Observer):
             self._transforms         = {}
             self._root['transforms'] = self._transforms
             if self._flat:
-                name_all_elements(self._world.iterbodies(), True)
-                for b in self._world.iterbodies():
+                frames = list(self._world.iterbodies())
+                name_all_elements(frames, True)
+                for b in frames:
                     self._arb_transforms[b.name] = b
             else:
-                nonflatlist = [j.frames[1] for j in self._world.getjoints()]
-                name_all_elements(nonflatlist, True)
+                frames = [j.frames[1] for j in self._world.getjoints()]
+                name_all_elements(frames, True)
                 for j in  self._world.getjoints():
                     self._arb_transforms[j.frames[1].name] = j
-            name_all_elements(self._world.itermovingsubframes(), True)
+            # the moving subframes are saved in the same group
+            name_all_elements(frames +
+                [f for f in self._world.itermovingsubframes()
+                 if f not in frames], True)
 
             for f in self._world.itermovingsubframes():
                 self._arb_transforms[f.name] = f
-- 
2.43.0


From b74990dca97aae21d208c79298ded87e1e87d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 29/63] fix: keep the joints of a PD controller given by any
 iterable

---
 arboris/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index d794418..286c1ec 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -122,8 +122,9 @@ class ProportionalDerivativeController(Controller):
         """
         Controller.__init__(self, name=name)
         self._cndof = 0
+        self.joints = list(joints)
         dof_map = []
-        for j in joints:
+        for j in self.joints:
             if not isinstance(j, LinearConfigurationSpaceJoint):
                 raise ValueError('Joints must be ' +\
                         'LinearConfigurationSpaceJoint instances')
@@ -131,7 +132,6 @@ class ProportionalDerivativeController(Controller):
                 self._cndof += j.ndof
                 dof_map.extend(list(range(j.dof.start, j.dof.stop)))
         self._dof_map = array(dof_map)
-        self.joints = joints
         self._wndof = None
 
         if kp is None:
-- 
2.43.0


From a3df6b58be07347227d444047ed452a2923a14ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 30/63] fix: read the URDF files with Python 3

---
 arboris/robots/urdf/__init__.py    | 12 ++++++------
 arboris/robots/urdf/urdf_parser.py | 17 ++++++++---------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 7c79482..bc78e1c 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -107,11 +107,11 @@ def to_arboris( obj , default=None):
             joint["type"] = arboris.joints.FixedJoint
 
         elif obj.joint_type == urdf_parser.Joint.FLOATING:
-            print "WARNING: urdf containt free joint; this joint is deprecated."
+            print("WARNING: urdf containt free joint; this joint is deprecated.")
             joint["type"] = arboris.joints.FreeJoint
 
         else:
-            raise KeyError, "Joint type: '"+obj.joint_type+"' is unknown or not not implemented yet."
+            raise KeyError("Joint type: '"+obj.joint_type+"' is unknown or not not implemented yet.")
 
         return joint
 
@@ -151,7 +151,7 @@ def to_arboris( obj , default=None):
             return default
 
     else:
-        print "WARNING: Cannot load object", obj.__class__, obj
+        print("WARNING: Cannot load object", obj.__class__, obj)
 
 
 
@@ -189,7 +189,7 @@ class URDFConverter(object):
         list_of_bodies = {}
 
         if self.robot is None:
-            raise ValueError, "no URDF file has been loaded"
+            raise ValueError("no URDF file has been loaded")
 
         # save all bodies
         for body_name, urdf_body in self.robot.links.items():
@@ -204,7 +204,7 @@ class URDFConverter(object):
             # visual shapes can be loaded later with function 'get_visual_shapes'
             collision = to_arboris(urdf_body.collision, None)
             
-            if collision and (collision["shape"] is not "mesh"):
+            if collision and (collision["shape"] != "mesh"):
 
                 H_body_shape = collision["transform"]
                 shape_frame = arboris.core.SubFrame( list_of_bodies[name], H_body_shape )
@@ -260,7 +260,7 @@ class URDFConverter(object):
                         world.register(constraint)
 
                 else:
-                    print "WARNING: cannot save joint limit constraint for joint "+joint_name+" ("+urdf_joint.joint_type+")"
+                    print("WARNING: cannot save joint limit constraint for joint "+joint_name+" ("+urdf_joint.joint_type+")")
 
 
         # connect the root body of the robot with the ground frame
diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index 2939c64..f79399d 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -6,7 +6,6 @@
 # It has been modified by joseph salini (just one comment) to skip rospy import.
 # Also replace rospy.logwarn by warnings
 
-import string
 #import rospy
 import warnings
 import xml.dom.minidom
@@ -14,9 +13,9 @@ from xml.dom.minidom import Document
 
 def reindent(s, numSpaces):
     """Reindent a string for tree structure pretty printing."""
-    s = string.split(s, '\n')
+    s = s.split('\n')
     s = [(numSpaces * ' ') + line for line in s]
-    s = string.join(s, '\n')
+    s = '\n'.join(s)
     return s
 
 def add(doc, base, element):
@@ -232,7 +231,7 @@ class Mesh(Geometry):
             s = None
         else:
             xyz = node.getAttribute('scale').split()
-            s = map(float, xyz)
+            s = [float(x) for x in xyz]
         return Mesh(fn, s)
 
     def to_xml(self, doc):
@@ -575,10 +574,10 @@ class Pose(object):
         pose = Pose()
         if node.hasAttribute("xyz"):
             xyz = node.getAttribute('xyz').split()
-            pose.position = map(float, xyz)
+            pose.position = [float(x) for x in xyz]
         if node.hasAttribute("rpy"):
             rpy = node.getAttribute('rpy').split()
-            pose.rotation = map(float, rpy)
+            pose.rotation = [float(x) for x in rpy]
         return pose
 
     def to_xml(self, doc):
@@ -780,21 +779,21 @@ class URDF(object):
         if len(self.links) == 0:
             s += "None\n"
         else:
-            for k, v in self.links.iteritems():
+            for k, v in self.links.items():
                 s += "- Link '{0}':\n{1}\n".format(k, reindent(str(v), 1))
         s += "\n"
         s += "Joints:\n"
         if len(self.joints) == 0:
             s += "None\n"
         else:
-            for k, v in self.joints.iteritems():
+            for k, v in self.joints.items():
                 s += "- Joint '{0}':\n{1}\n".format(k, reindent(str(v), 1))
         s += "\n"
         s += "Materials:\n"
         if len(self.materials) == 0:
             s += "None\n"
         else:
-            for k, v in self.materials.iteritems():
+            for k, v in self.materials.items():
                 s += "- Material '{0}':\n{1}\n".format(k, reindent(str(v), 1))
 
         return s
-- 
2.43.0


From b6f905fac044ce8104d44d2513fa9906a878d887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 31/63] fix: read the URDF origins and axes that are partly or
 not given

---
 arboris/robots/urdf/__init__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index bc78e1c..9504334 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -70,8 +70,11 @@ def to_arboris( obj , default=None):
         return arboris.massmatrix.transport(M_com, inv(H_body_com) )
 
     elif isinstance(obj, urdf_parser.Pose):
-        H          = arboris.homogeneousmatrix.transl( *obj.position)
-        H[0:3,0:3] = roll_pitch_yaw_to_rotation_matrix(*obj.rotation)
+        H = np.eye(4)
+        if obj.position is not None:
+            H[0:3,3]   = obj.position
+        if obj.rotation is not None:
+            H[0:3,0:3] = roll_pitch_yaw_to_rotation_matrix(*obj.rotation)
         return H
 
     elif isinstance(obj, urdf_parser.Joint):
@@ -79,7 +82,10 @@ def to_arboris( obj , default=None):
         joint["parent"]         = obj.parent
         joint["child"]          = obj.child
         joint["H_parent_child"] = to_arboris(obj.origin, np.eye(4))
-        axis = [float(v) for v in obj.axis.split()] if len(obj.axis.split())==3 else obj.axis
+        if obj.axis is None: # default value of the URDF format
+            axis = [1., 0., 0.]
+        else:
+            axis = [float(v) for v in obj.axis.split()] if len(obj.axis.split())==3 else obj.axis
 
         if   obj.joint_type == urdf_parser.Joint.REVOLUTE:
             if   (axis in ["x", "X"]) or ( np.allclose(axis, [1,0,0])):
-- 
2.43.0


From 6c4ea6d7b6c2bdda474be11f80c5f274339b15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 32/63] fix: load the URDF links without inertia as massless
 bodies

---
 arboris/robots/urdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 9504334..5cc9926 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -50,7 +50,7 @@ def to_arboris( obj , default=None):
     if   isinstance(obj, urdf_parser.Link):
         body = arboris.core.Body()
         body.name = obj.name
-        body.mass = to_arboris(obj.inertial)
+        body.mass = to_arboris(obj.inertial, np.zeros((6,6)))
         return body
 
     elif isinstance(obj, urdf_parser.Inertial):
-- 
2.43.0


From 36185dd05fcd19bec56e817674934786b5bb0bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 33/63] fix: load the URDF robots with a prefix or a suffix

---
 arboris/robots/urdf/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 5cc9926..985eea6 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -235,10 +235,8 @@ class URDFConverter(object):
             name = self.prefix + joint_name + self.suffix
 
             joint = to_arboris(urdf_joint)
-            joint["type"].name = name
-
-            parent = list_of_bodies[joint["parent"]]
-            child  = list_of_bodies[joint["child"] ]
+            parent = list_of_bodies[self.prefix + joint["parent"] + self.suffix]
+            child  = list_of_bodies[self.prefix + joint["child"]  + self.suffix]
 
             if "H_child_joint" in joint: # it means the the axis is not along x, y or z
                 H_parent_joint = np.dot( joint["H_parent_child"], joint["H_child_joint"])
@@ -270,7 +268,7 @@ class URDFConverter(object):
 
 
         # connect the root body of the robot with the ground frame
-        root_body = list_of_bodies[self.robot.get_root()]
+        root_body = list_of_bodies[self.prefix + self.robot.get_root() + self.suffix]
         ground = world.ground
 
         if self.H_init is not None:
-- 
2.43.0


From 3b5633ba09b44332858f86226a1f98f9a17c80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 34/63] fix: limits of the URDF robots where some joints have
 none

---
 arboris/robots/urdf/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 985eea6..f984a3e 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -254,7 +254,8 @@ class URDFConverter(object):
             # save all joints limits if it has been requested
             if self.save_joint_limits is True:
 
-                if urdf_joint.joint_type in [urdf_parser.Joint.REVOLUTE, urdf_parser.Joint.PRISMATIC]:
+                if urdf_joint.joint_type in [urdf_parser.Joint.REVOLUTE, urdf_parser.Joint.PRISMATIC] \
+                        and urdf_joint.limits is not None:
                     lower = urdf_joint.limits.lower
                     upper = urdf_joint.limits.upper
                     
@@ -335,6 +336,8 @@ class URDFConverter(object):
 
             name = self.prefix + joint_name + self.suffix
 
+            if urdf_joint.limits is None:
+                continue
             lower = urdf_joint.limits.lower
             upper = urdf_joint.limits.upper
             if (lower is not None) and (upper is not None):
@@ -350,7 +353,8 @@ class URDFConverter(object):
         for joint_name, urdf_joint in self.robot.joints.items():
 
             name = self.prefix + joint_name + self.suffix
-            effort_limits[name] = urdf_joint.limits.effort
+            if urdf_joint.limits is not None:
+                effort_limits[name] = urdf_joint.limits.effort
 
         return effort_limits
 
@@ -362,7 +366,8 @@ class URDFConverter(object):
         for joint_name, urdf_joint in self.robot.joints.items():
 
             name = self.prefix + joint_name + self.suffix
-            velocity_limits[name] = urdf_joint.limits.velocity
+            if urdf_joint.limits is not None:
+                velocity_limits[name] = urdf_joint.limits.velocity
 
         return velocity_limits
 
-- 
2.43.0


From 03683c9c155a8c9651de3cd8f88893831ac7c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 35/63] fix: scale and path of the meshes of the URDF robots

---
 arboris/robots/urdf/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index f984a3e..38acb28 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -134,7 +134,7 @@ def to_arboris( obj , default=None):
 
     elif isinstance(obj, urdf_parser.Mesh):
         mesh_path = obj.filename
-        scale = 1 if obj.scale is None else [float(v) for v in obj.scale.split()]
+        scale = 1 if obj.scale is None else obj.scale
         return {"shape": "mesh", "mesh_from_urdf": mesh_path,  "scale": scale}
 
     elif isinstance(obj, urdf_parser.Box):
@@ -288,7 +288,7 @@ class URDFConverter(object):
         """
         """
         visual_mapping = []
-        urdf_path = os.path.dirname(self.urdf_file_name) + os.sep
+        urdf_path = os.path.dirname(os.path.abspath(self.urdf_file_name)) + os.sep
 
         for body_name, urdf_body in self.robot.links.items():
             name = self.prefix + body_name + self.suffix
@@ -309,7 +309,7 @@ class URDFConverter(object):
         """
         """
         visual_mapping = []
-        urdf_path = os.path.dirname(self.urdf_file_name) + os.sep
+        urdf_path = os.path.dirname(os.path.abspath(self.urdf_file_name)) + os.sep
 
         for body_name, urdf_body in self.robot.links.items():
             name = self.prefix + body_name + self.suffix
-- 
2.43.0


From 70c21761b38a93fee77d3da4d1cb32e0eac22bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 36/63] fix: write the mimic element of the URDF joints

---
 arboris/robots/urdf/urdf_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index f79399d..e92e800 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -363,6 +363,7 @@ class Joint(object):
         add(doc, xml, self.dynamics)
         add(doc, xml, self.safety)
         add(doc, xml, self.calibration)
+        add(doc, xml, self.mimic)
         return xml
 
 
-- 
2.43.0


From 77e57573a10fec384340e62057d607e9ebaf6884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 37/63] fix: normalize the axes of the URDF joints

---
 arboris/robots/urdf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 38acb28..6d8d7e3 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -95,7 +95,7 @@ def to_arboris( obj , default=None):
             elif (axis in ["z", "Z"]) or ( np.allclose(axis, [0,0,1])):
                 joint["type"] = arboris.joints.RzJoint
             else:
-                joint["H_child_joint"] = arboris.homogeneousmatrix.zaligned(axis)
+                joint["H_child_joint"] = arboris.homogeneousmatrix.zaligned(np.array(axis)/np.linalg.norm(axis))
                 joint["type"]          = arboris.joints.RzJoint
 
         elif obj.joint_type == urdf_parser.Joint.PRISMATIC:
@@ -106,7 +106,7 @@ def to_arboris( obj , default=None):
             elif (axis in ["z", "Z"]) or ( np.allclose(axis, [0,0,1])):
                 joint["type"] = arboris.joints.TzJoint
             else:
-                joint["H_child_joint"] = arboris.homogeneousmatrix.zaligned(axis)
+                joint["H_child_joint"] = arboris.homogeneousmatrix.zaligned(np.array(axis)/np.linalg.norm(axis))
                 joint["type"]          = arboris.joints.TzJoint
         
         elif obj.joint_type == urdf_parser.Joint.FIXED:
-- 
2.43.0


From e4b13a23f58a548657ed954a1fb139705552d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 38/63] fix: port the collada writers and viewers to Python 3

---
 arboris/visu/__init__.py     |  2 +-
 arboris/visu/dae_writer.py   | 18 +++++++++---------
 arboris/visu/visu_collada.py |  6 +++---
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/arboris/visu/__init__.py b/arboris/visu/__init__.py
index b09fab9..0b2a77c 100644
--- a/arboris/visu/__init__.py
+++ b/arboris/visu/__init__.py
@@ -80,7 +80,7 @@ def view(world, browser=None, **kwargs):
 
         write_collada_scene(world, collada_path)
 
-    elif isinstance(world, basestring):
+    elif isinstance(world, str):
         collada_path = world
 
     pydaenim.create_pydaenimViewer(collada_path, **kwargs)
diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 69ab969..27100ae 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -79,7 +79,7 @@ def write_collada_animation(collada_animation, collada_scene, sim_file, file_typ
             raise IOError("Cannot load file '"+sim_file+"'. It may not be a hdf5 file.")
     elif file_type in ["pickle", "pkl"]:
         try:
-            f = open(sim_file,'r')
+            f = open(sim_file,'rb')
             sim = pkl.load(f)
             timeline = sim["timeline"]
             transforms = sim["transforms"]
@@ -100,7 +100,7 @@ def write_collada_animation_from_transforms(collada_animation, collada_scene, ti
         src_elem = E.source(id=idName)
         
         idName += "-array"
-        count = len(src_data)/16 if param_type=="float4x4" else len(src_data)
+        count = len(src_data)//16 if param_type=="float4x4" else len(src_data)
         
         if src_type == "float":
             str_src_data = " ".join([str(round(val, precision)) for val in src_data])+" "
@@ -183,7 +183,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                     dae.nodes.append(child_shape_node)
 
             else:
-                print "warning: cannot find shapes for node: '",node_id, "'"
+                print("warning: cannot find shapes for node: '",node_id, "'")
 
     else:
         for mesh_info in added_shapes:
@@ -204,11 +204,11 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
              #check whether parent exist
             if parent_node_id not in dae_nodes:
-                print "warning: cannot find node in input file: '", parent_node_id, "'"
+                print("warning: cannot find node in input file: '", parent_node_id, "'")
 
              #check whether shape exists
             elif (shape_id != "") and (shape_id not in shapes_dae_nodes):
-                print "warning: cannot find shape in collada file: '", shape_id, "'"
+                print("warning: cannot find shape in collada file: '", shape_id, "'")
 
             else:
                  #create node that will contain scale, transform and instance_node
@@ -237,7 +237,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                 if len(mesh_data) >= 4:
                     #add a scale tranform Node
                     scale = mesh_data[3]
-                    if isinstance(scale, (int, float, long)):
+                    if isinstance(scale, (int, float)):
                         scale = [scale]*3
                     instance_node.transforms.append(collada.scene.ScaleTransform(*scale))
 
@@ -253,8 +253,8 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 def _write_pycollada_in_file(dae, output_file):
     """
     """
-    with open(output_file, "w") as f:
-        f.write('<?xml version="1.0" encoding="UTF-8"?>')
+    with open(output_file, "wb") as f:
+        f.write(b'<?xml version="1.0" encoding="UTF-8"?>')
         dae.write(f)
 
 
@@ -348,7 +348,7 @@ class pydaenimColladaDriver(DrawerDriver):
                 new_name = name + "_{}".format(i)
                 if new_name not in self._names:
                     break
-            print "warning: name collision: "+name+": modify name to "+new_name
+            print("warning: name collision: "+name+": modify name to "+new_name)
         self._names.append(new_name)
         node = collada.scene.Node(new_name)
         return node
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 7c1b5f8..f7d7a75 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -208,7 +208,7 @@ class DaenimCom(SocketCom):
         """
         """
         if self.flat:
-            msg = b""
+            msg = ""
             for b in self.world.getbodies():
                 H = b.pose
                 msg += self.packing_transform(b.name, H)
@@ -223,13 +223,13 @@ class DaenimCom(SocketCom):
             msg += self.packing_transform(f.name, H)
 
         try:
-            self.conn.send(msg)
+            self.conn.sendall(msg.encode())
         except:
             print("DaenimCom not connected")
 
 
     def packing_transform(self, _name, _H):
-        res = " ".join([_name] + map(str, _H[0:3, :].reshape(12)))+"\n"
+        res = " ".join([_name] + [str(v) for v in _H[0:3, :].reshape(12)])+"\n"
         return res
 
 
-- 
2.43.0


From a9ef017f25afd913f5e002d3a90353bf8d5c6c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 39/63] fix: write the inertia of unnamed bodies in collada
 scenes

---
 arboris/visu/dae_writer.py   | 2 +-
 arboris/visu/visu_collada.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 27100ae..26d7530 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -475,7 +475,7 @@ class pydaenimColladaDriver(DrawerDriver):
                     ),
                     E.inertia(" ".join(map(str, m_o_inertia))),
                 ),
-            sid=name
+            sid=name or ""
             )
         )
 
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index f7d7a75..631cabb 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -134,7 +134,7 @@ class DaenimColladaDriver(pydaenimColladaDriver):
 
     def create_inertia(self, inertia, color, name=""):
         """Generate a representation of inertia as an ellipsoid."""
-        pydaenimColladaDriver.create_inertia(self, inertia, color)
+        pydaenimColladaDriver.create_inertia(self, inertia, color, name)
         H_body_com  = principalframe(inertia)
         Mcom        = transport(inertia, H_body_com)
         mass        = Mcom[5,5]
@@ -143,7 +143,7 @@ class DaenimColladaDriver(pydaenimColladaDriver):
         node = _get_void_node()
         node.transforms.append( collada.scene.MatrixTransform(H_body_com.flatten()) )
         
-        inertia_node = self.create_ellipsoid(m_o_inertia, color, name+".inertia")
+        inertia_node = self.create_ellipsoid(m_o_inertia, color, (name or "")+".inertia")
         node.children.append(inertia_node)
         
         for c in inertia_node.children:
-- 
2.43.0


From 7d55b29e7b90895984650f7a1ef51581a737675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 40/63] fix: warn about up vectors that collada cannot
 represent

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 26d7530..109b214 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -360,7 +360,7 @@ class pydaenimColladaDriver(DrawerDriver):
         elif np_all(up == [0., 0., 1.]): up_elem = collada.asset.UP_AXIS.Z_UP
         else:
             up_elem = up_elem = collada.asset.UP_AXIS.Y_UP
-            warnings.warn('the up vector ('+up+') is not compatible with collada, set default.')
+            warnings.warn('the up vector ('+str(up)+') is not compatible with collada, set default.')
         self.dae.assetInfo.upaxis = up_elem
 
     def _add_new_material(self, color):
-- 
2.43.0


From 5b41140340f6d8d376e3bef3b0883bf5f580c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 41/63] fix: accept shapes with a scale and no transform in
 add_shapes_to_dae

---
 arboris/visu/dae_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 109b214..95aa7d7 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -192,6 +192,8 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                 mesh_data = [mesh_info["frame"], mesh_info["mesh"]]
                 if "transform" in mesh_info:
                     mesh_data.append(mesh_info["transform"])
+                elif "scale" in mesh_info:
+                    mesh_data.append(np.eye(4))
                 if "scale" in mesh_info:
                     mesh_data.append(mesh_info["scale"])
             else:
-- 
2.43.0


From 81eb855e37249c1921d97a4b84306f032bc0cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 42/63] fix: tell the whole files added to a collada scene
 apart

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 95aa7d7..1e5d3d1 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -219,7 +219,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
                  #it means that user selects all the scene children
                 if shape_id == "":
-                    child_shape_node = collada.scene.Node(shape_id, children = shapes_dae.scene.nodes)
+                    child_shape_node = collada.scene.Node(_get_good_id_uri(shape_path), children = shapes_dae.scene.nodes)
 
                 #in this case, the shape_path is on the form: 'shape_file.dae#shape_id'
                 else:
-- 
2.43.0


From 7bd09e4da94144914d4190aef566e84795a2fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 43/63] fix: count of the arrays of the collada animations

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 1e5d3d1..17c9a25 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -107,7 +107,7 @@ def write_collada_animation_from_transforms(collada_animation, collada_scene, ti
             str_src_data = str_src_data.replace(".0 ", " ")
         else:
             str_src_data = " ".join(map(str, src_data))
-        src_elem.append( E(src_type+"_array", str_src_data, id=idName, count=str(count)) )
+        src_elem.append( E(src_type+"_array", str_src_data, id=idName, count=str(len(src_data))) )
         
         src_elem.append( E.technique_common(
                             E.accessor(
-- 
2.43.0


From 6f7f9653c21af927517752946a30ad9444dd16a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 44/63] fix: position of the lines that do not start from the
 origin

---
 arboris/visu/visu_collada.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 631cabb..c96052a 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -125,8 +125,8 @@ class DaenimColladaDriver(pydaenimColladaDriver):
         H[0:3, 3] = start
         
         node = self._add_new_geometry(name, color, line_geom)
-        node.transforms.append(collada.scene.ScaleTransform(vector_norm, vector_norm, vector_norm))
         node.transforms.append(collada.scene.MatrixTransform(H.flatten()))
+        node.transforms.append(collada.scene.ScaleTransform(vector_norm, vector_norm, vector_norm))
 
         self._add_osg_description(node, "link")
 
-- 
2.43.0


From 69ab80d4bfb506a4033d2061a585ff75fd99370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 45/63] fix: give the HDF5 group to write_collada_animation in
 view

---
 arboris/visu/visu_collada.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index c96052a..69fad97 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -280,7 +280,7 @@ def view(scene, hdf5_file=None, hdf5_group="/", daenim_path=None):
             subprocess.check_call((daenim_path, scene))
         else:
             anim_file = tempfile.mkstemp(suffix='anim.dae', text=True)[1]
-            write_collada_animation(anim_file, scene, hdf5_file, hdf5_group)
+            write_collada_animation(anim_file, scene, hdf5_file, "hdf5", hdf5_group)
             subprocess.check_call((daenim_path, anim_file))
             os.remove(anim_file)
 
-- 
2.43.0


From 521f846caec49fcb6677c6eab64f2952069e4998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:29 +0000
Subject: [PATCH 46/63] fix: scale of the visual boxes of the URDF robots

---
 arboris/robots/urdf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 6d8d7e3..fc5b94f 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -139,7 +139,7 @@ def to_arboris( obj , default=None):
 
     elif isinstance(obj, urdf_parser.Box):
         mesh_path = arboris_simple_shapes_path + "#simple_box_node"
-        scale     = obj.dims
+        scale     = [dim/2. for dim in obj.dims] # the mesh is 2 m wide
         return {"shape": "box", "mesh": mesh_path,  "scale": scale}
 
     elif isinstance(obj, urdf_parser.Sphere):
@@ -216,7 +216,7 @@ class URDFConverter(object):
                 shape_frame = arboris.core.SubFrame( list_of_bodies[name], H_body_shape )
 
                 if   collision["shape"] == "box":
-                    half_dims = np.array(collision["scale"])/2.
+                    half_dims = np.array(collision["scale"])
                     shape = arboris.shapes.Box( shape_frame, half_dims )
                 elif collision["shape"] == "sphere":
                     radius = collision["scale"]
-- 
2.43.0


From 1885e0b4fda7cbb1c257c7b9278af0290d8abaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 47/63] fix: options of the collada drivers were ignored

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 17c9a25..2a8acd4 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -321,7 +321,7 @@ class pydaenimColladaDriver(DrawerDriver):
     def __init__(self, filename, scale=1., options=None):
         """
         """
-        DrawerDriver.__init__(self, scale)
+        DrawerDriver.__init__(self, scale, options)
         self.filename   = filename
 
         self.dae        = collada.Collada()
-- 
2.43.0


From ebd83465d40e4146ab972f143841c3e64d14c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 48/63] fix: socket observers made together used the same port

---
 arboris/observers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index cc6cbd2..119f9ea 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -432,6 +432,8 @@ class SocketCom(Observer):
         while port < max_port:
             try:
                 self.s.bind((host, port))
+                # until it listens, the port can be bound by other observers
+                self.s.listen(1)
                 break
             except socket.error:
                 port += 1
@@ -442,7 +444,6 @@ class SocketCom(Observer):
         self.addr = None
 
     def init(self, world, timeline):
-        self.s.listen(1)
         try:
             self.conn, self.addr = self.s.accept()
             print('Connected by', self.addr)
-- 
2.43.0


From 70f804d002108e1acebf46d333ce74e22ad8a099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 49/63] fix: a robot of one body could not be written for
 Matlab

---
 matlab/convert_py2mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index e97acdf..bb4ac23 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -306,7 +306,7 @@ robot.model.T = {2}';
 
 end
 """.format(self._gpos[0],
-           hstack(self._gpos[1:]),
+           hstack([zeros(0)] + self._gpos[1:]),
            hstack(gvel))
         self.stream.write(text)
 
-- 
2.43.0


From d0e31b4168441025d53576ee856676018fdec7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 50/63] fix: the state of a robot was written for Matlab in
 wrapped lines of 8 digits

---
 matlab/convert_py2mat.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index bb4ac23..1de362c 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -9,12 +9,13 @@ __author__ = ("Joseph SALINI <joseph.salini@gmail.com>",
 
 from arboris.core import Body, SubFrame, Joint, World
 from arboris import joints, shapes
-from numpy import zeros, eye, array, arange, hstack
+from numpy import zeros, eye, array, arange, hstack, inf
 from numpy.core import array2string
 
 def a2s(a):
     """Convert an array to a matlab-like string."""
-    return array2string(a, max_line_width=3*73, precision=14)
+    # no wrapping and no summary: a new line would begin another matrix row
+    return array2string(a, max_line_width=inf, threshold=inf, precision=16)
 
 class GenerationError(RuntimeError):
     pass
@@ -227,7 +228,7 @@ struct2h5(st, ['{sname}' '_mat.h5']);
 
 exit; % quit matlab!
 end
-""".format(t_start=t_start, t_end=t_end, dt=dt, rname=robot_name, sname=simu_name, gravity_acc=gravity_acc)
+""".format(t_start=t_start, t_end=t_end, dt=dt, rname=robot_name, sname=simu_name, gravity_acc=a2s(gravity_acc))
         stream.write(text)
         MatlabRobotGenerator(world).make_robot(
             root_joint = world.ground.childrenjoints[0],
@@ -305,9 +306,9 @@ robot.model.q = {1}';
 robot.model.T = {2}';
 
 end
-""".format(self._gpos[0],
-           hstack([zeros(0)] + self._gpos[1:]),
-           hstack(gvel))
+""".format(a2s(self._gpos[0]),
+           a2s(hstack([zeros(0)] + self._gpos[1:])),
+           a2s(hstack(gvel)))
         self.stream.write(text)
 
 
-- 
2.43.0


From 10583915893a77afa4d3d30cb220500f0c5fa7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 51/63] fix: bodies of the same name got each other's shapes in
 Matlab

---
 matlab/convert_py2mat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 1de362c..5adeb78 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -329,7 +329,7 @@ tree.br({br}).root_jk={par};
         H00L1 = joint.frames[0].bpose
         H11L0 = joint.frames[1].bpose
         body = joint.frames[1].body
-        self._b_map[body.name] = (num_br, num_bd)
+        self._b_map[body] = (num_br, num_bd)
         if isinstance(joint, joints.RxJoint):
             jtype = "[0 0 0 1 0 0]"
         elif isinstance(joint, joints.RyJoint):
@@ -372,11 +372,11 @@ tree.br({br}).bd({bd}).M = ...
         _shapes = self.w.getshapes()
         for v in _shapes:
             body = v.frame.body
-            (br,bd)= self._b_map[body.name]
-            if body.name in num_in_bd:
-                num_in_bd[body.name] += 1
+            (br,bd)= self._b_map[body]
+            if body in num_in_bd:
+                num_in_bd[body] += 1
             else:
-                num_in_bd[body.name] = 1
+                num_in_bd[body] = 1
             if isinstance(v, shapes.Point): #TODO should be handled by Converter
                 stype='sphere'
                 dims='0.01'
@@ -397,7 +397,7 @@ tree.br({br}).bd({bd}).shape({num}).type = '{stype}';
 tree.br({br}).bd({bd}).shape({num}).dims = {dims};
 tree.br({br}).bd({bd}).shape({num}).H = {H};
 tree.br({br}).bd({bd}).shape({num}).gr_props = {visu};
-""".format(br=br, bd=bd, num=num_in_bd[body.name], stype=stype,
+""".format(br=br, bd=bd, num=num_in_bd[body], stype=stype,
            dims=dims, H=a2s(Hpose),
            visu="{}")
             self.stream.write(text)
-- 
2.43.0


From 66e8e5f91cbea73e432bbe2856068a18f2f8077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 52/63] fix: a robot could not be written for Matlab with a
 shape on the ground

---
 matlab/convert_py2mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 5adeb78..126b8d5 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -369,7 +369,8 @@ tree.br({br}).bd({bd}).M = ...
     def _add_shapes(self):
         """Add the shapes for all the links."""
         num_in_bd = {}
-        _shapes = self.w.getshapes()
+        # the shapes of the robot only (not the ones of the ground)
+        _shapes = [s for s in self.w.getshapes() if s.frame.body in self._b_map]
         for v in _shapes:
             body = v.frame.body
             (br,bd)= self._b_map[body]
-- 
2.43.0


From 1a706f0319e60e4d437d7ef462e1687a81fcda05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 53/63] fix: a shape of unknown type was written for Matlab
 like the one before it

---
 matlab/convert_py2mat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 126b8d5..42f7c87 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -392,6 +392,9 @@ tree.br({br}).bd({bd}).M = ...
             elif isinstance(v, shapes.Cylinder):
                 stype='cylinder'
                 dims='[{0} {1}]'.format(v.radius, v.length)
+            else:
+                raise GenerationError(
+                    'Cannot generate shapes of type "{0}".'.format(type(v)))
             Hpose=v.frame.bpose
             text="""
 tree.br({br}).bd({bd}).shape({num}).type = '{stype}';
-- 
2.43.0


From f3e39953875148861f8a1d9ea598908cce14e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 54/63] fix: quotes in the names of joints ended the strings
 written for Matlab

---
 matlab/convert_py2mat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 42f7c87..b99b588 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -17,6 +17,10 @@ def a2s(a):
     # no wrapping and no summary: a new line would begin another matrix row
     return array2string(a, max_line_width=inf, threshold=inf, precision=16)
 
+def n2s(name):
+    """Convert a name to the content of a matlab string, on a single line."""
+    return ' '.join(str(name).split()).replace("'", "''")
+
 class GenerationError(RuntimeError):
     pass
 
@@ -356,8 +360,8 @@ tree.br({br}).bd({bd}).M = ...
 """.format(
         br=num_br,
         bd=num_bd,
-        name=joint.name,
-        name2=body.name,
+        name=n2s(joint.name),
+        name2=n2s(body.name),
         mass=a2s(_flip(body.mass)),
         jtype=jtype,
         H0 = a2s(H00L1),
-- 
2.43.0


From f51e89863a44314273e89b969a1b2c9532491066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 55/63] fix: bodies added between the joints for Matlab were as
 heavy as the base

---
 matlab/convert_py2mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index b99b588..5d703bd 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -128,7 +128,7 @@ class MatlabConverter(object):
 
         def mass():
             from numpy import diag
-            return self.base_mass*diag([1.0, 1.0, 1.0, 0.1, 0.1, 0.1])
+            return self.small_mass*diag([1.0, 1.0, 1.0, 0.1, 0.1, 0.1])
 
         if isinstance(joint, joints.RzJoint) or \
             isinstance(joint, joints.RyJoint) or \
-- 
2.43.0


From cb9941b78c929c7577f7da91209e1e21b68c3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 56/63] fix: timelines of Matlab simulations were refused by
 rounding, or failed

---
 matlab/convert_py2mat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 5d703bd..df4c0ea 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -9,7 +9,7 @@ __author__ = ("Joseph SALINI <joseph.salini@gmail.com>",
 
 from arboris.core import Body, SubFrame, Joint, World
 from arboris import joints, shapes
-from numpy import zeros, eye, array, arange, hstack, inf
+from numpy import zeros, hstack, diff, allclose, inf
 from numpy.core import array2string
 
 def a2s(a):
@@ -184,10 +184,10 @@ class MatlabSimulationGenerator(object):
 
         t_start = timeline[0]
         dt = timeline[1]-timeline[0]
-        t_end = timeline[-1]+dt
-        if not (arange(t_start, t_end, dt) == array(timeline)).all():
+        steps = diff(timeline)
+        if dt <= 0 or not allclose(steps, dt, rtol=1e-6, atol=0):
             raise GenerationError('timeline elements should be equally spaced.')
-        t_end -= 1.5*dt
+        t_end = timeline[-1]-.5*dt
         if len(world.ground.childrenjoints) != 1:
             raise GenerationError('the ground can only have one child joint. (multiple robots are not supported yet.)')
 
-- 
2.43.0


From a9bc9bee9adfe32aecffe6dfd943863c3ab78f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:45 +0000
Subject: [PATCH 57/63] fix: leave the world untouched when one of several
 links is refused

---
 arboris/core.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 62668e7..eebd6e5 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -537,13 +537,22 @@ class World(NamedObject):
             raise ValueError("frame1's body is the ground or an ancestor of " + \
             "frame0's body, which would create a kinematic loop. " + \
             "Try using a constraint instead.")
+        subframes = list(self._subframes)
         joint.set_frames(frame0, frame1)
         frame1.body.parentjoint = joint
         frame0.body.childrenjoints.append(joint)
         self.register(frame0)
         self.register(frame1)
         if len(args) > 0:
-            self.add_link(*args)
+            try:
+                self.add_link(*args)
+            except Exception:
+                # one of the next links is refused, leave the world untouched
+                self._subframes[:] = subframes
+                frame0.body.childrenjoints.pop()
+                frame1.body.parentjoint = None
+                joint.set_frames(None, None)
+                raise
 
     def replace_joint(self, old_joint, *args):
         """ Replace a joint by another joint or by another kinematic chain.
@@ -590,9 +599,16 @@ class World(NamedObject):
                    frame.body.parentjoint is not None:
                     raise ValueError("the bodies of the new kinematic chain " + \
                     "should not already belong to the world.")
+            old_frames = old_joint.frames
             body1.parentjoint = None
             old_joint.set_frames(None, None)
-            self.add_link(*args)
+            try:
+                self.add_link(*args)
+            except Exception:
+                # a link is refused, leave the world untouched
+                body1.parentjoint = old_joint
+                old_joint.set_frames(*old_frames)
+                raise
             # new_joint is now the last in body0.childrenjoint
             # and old_joint is still somewhere in body0.childrenjoint
             # let's fix that
-- 
2.43.0


From bff3b0e8a07be74dbcf935239304bb6baa905876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:44 +0000
Subject: [PATCH 58/63] fix: objects added to a COLLADA scene got the geometry
 or colour of another file

---
 arboris/visu/dae_writer.py | 55 +++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 2a8acd4..4f40967 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -5,6 +5,7 @@
 
 
 import os
+import copy
 import warnings
 
 from arboris.core import World, name_all_elements
@@ -286,21 +287,63 @@ def _get_void_node(children=None):
     return node
 
 
+def _get_content(elem):
+    """
+    """
+    elem.save()
+    return [(e.tag, sorted(e.attrib.items()), (e.text or "").split()) for e in elem.xmlnode.iter()]
+
+
+def _rename_element(elem, new_id):
+    """Return a copy of elem with another id (and other ids for all its parts).
+    """
+    elem.save()
+    xmlnode = copy.deepcopy(elem.xmlnode)
+    parts_id = dict((e.get("id"), new_id+"-"+e.get("id")) for e in xmlnode.iter() if e.get("id"))
+    parts_id[elem.id] = new_id
+    for e in xmlnode.iter():
+        if e.get("id") in parts_id:
+            e.set("id", parts_id[e.get("id")])
+        if e.get("source", "")[1:] in parts_id:
+            e.set("source", "#"+parts_id[e.get("source")[1:]])
+
+    if isinstance(elem, collada.geometry.Geometry):
+        return collada.geometry.Geometry.load(collada.Collada(), {}, xmlnode)
+
+    new_elem = copy.copy(elem)
+    new_elem.id      = new_id
+    new_elem.xmlnode = xmlnode
+    return new_elem
+
+
+def _add_to_library(elem, library):
+    """Add elem to the library, with another id if this one is already used by an element which is not the same.
+
+    Return the element of the library.
+    """
+    new_elem, i = elem, 0
+    while new_elem.id in library and _get_content(library.get(new_elem.id)) != _get_content(new_elem):
+        new_elem, i = _rename_element(elem, "{}_{}".format(elem.id, i)), i+1
+
+    if new_elem.id not in library:
+        library.append(new_elem)
+    return library.get(new_elem.id)
+
+
 def _save_all_descendant_geometryNode(src_node, dest_dae):
     """
     """
     if isinstance(src_node, collada.scene.GeometryNode):
-        if src_node.geometry.id not in dest_dae.geometries:
-            dest_dae.geometries.append(src_node.geometry)
+        src_node.geometry = _add_to_library(src_node.geometry, dest_dae.geometries)
         for mat_node in src_node.materials:
-            if mat_node.target.id not in dest_dae.materials:
-                dest_dae.materials.append(mat_node.target)
-            if mat_node.target.effect.id not in dest_dae.effects:
-                dest_dae.effects.append(mat_node.target.effect)
+            mat_node.target.effect = _add_to_library(mat_node.target.effect, dest_dae.effects)
+            mat_node.target = _add_to_library(mat_node.target, dest_dae.materials)
     
     elif isinstance(src_node, collada.scene.Node):
         for child in src_node.children:
             _save_all_descendant_geometryNode(child, dest_dae)
+        if isinstance(src_node, collada.scene.NodeNode) and src_node.id not in dest_dae.nodes:
+            dest_dae.nodes.append(src_node.node)
     
     elif isinstance(src_node, collada.scene.Scene):
         for child in src_node.nodes:
-- 
2.43.0


From 5e5312f7ceaa3c8798feffe0f12e7bd0307e9051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:44 +0000
Subject: [PATCH 59/63] fix: a Matlab generator could not be used for several
 robots

---
 matlab/convert_py2mat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index df4c0ea..3cdb540 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -278,6 +278,10 @@ class  MatlabRobotGenerator(object):
         if not isinstance(root_joint, joints.FreeJoint):
             raise GenerationError("The root joint must be a FreeJoint.")
         self.stream = stream
+        # forget the former robot
+        self._b_map = {}
+        self._gpos = []
+        self._gvel = []
         try:
             self._add_tree(name)
             self._add_branch(1)
-- 
2.43.0


From 831b6b7d5ba14241bdd2ee8faa18288c9c32ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:05 +0000
Subject: [PATCH 60/63] fix: gyroscopic effects of bodies of less than 1e-10 kg
 were wrong

---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index eebd6e5..ff7a63a 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1435,7 +1435,7 @@ class Body(NamedObject, Frame):
             [[             0, -self.twist[2],  self.twist[1]],
              [ self.twist[2],              0, -self.twist[0]],
              [-self.twist[1],  self.twist[0],              0]])
-        if self.mass[5, 5] <= 1e-10: #TODO: avoid hardcoded value
+        if self.mass[5, 5] <= 0.:
             rx = zeros((3, 3))
         else:
             rx = self.mass[0:3, 3:6]/ self.mass[5,5]
-- 
2.43.0


From 763053b02dba0601765f67c9b74b56aea34b8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:05 +0000
Subject: [PATCH 61/63] fix: sliding contacts of very light bodies did not
 follow the friction law

---
 arboris/constraints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index ee633c8..2f225c7 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -855,8 +855,10 @@ class SoftFingerContact(PointContact):
                 # rounded zeros and do not fulfill the friction law)
                 s_max = -1e-9*abs(diag(Y_t)).sum()
                 S = S[logical_and(S.imag == 0, S.real < s_max)].real
-                for s in sorted(S) + [-1e10]: #TODO: log when s==-1e10
-                    s = max(s, -1e10) #TODO: log when |s|>=1e10
+                # (in proportion to the admittance, whatever the masses)
+                s_min = -1e12*abs(diag(admittance)).sum()
+                for s in sorted(S) + [s_min]: #TODO: log when s==s_min
+                    s = max(s, s_min) #TODO: log when s<=s_min
                     A = admittance.copy()
                     A[0:3, 0:3] -= s*diag(self._eps**-2)
                     force = solve(A, -alpha)
-- 
2.43.0


From 25d73a510cd9cbffa6a893948d7db0dd730d0076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:36 +0000
Subject: [PATCH 62/63] fix: automatic names could be those of other elements
 after a copy

---
 arboris/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index ff7a63a..2117b8b 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -142,9 +142,15 @@ class DuplicateNameError(Exception):
 def name_all_elements(nlist, check_unicity=False):
     nlist = list(nlist) # it may be an iterator
     # give a unique name for all unnamed elements
+    names = set(e.name for e in nlist)
     for elem in nlist: 
         if elem.name is None:
-            elem.name = str(id(elem))
+            name = str(id(elem))
+            # an element of another time (or its copy) may have this name
+            while name in names:
+                name += '_'
+            elem.name = name
+            names.add(name)
     # check duplicate name
     if check_unicity is True:
         list_name = [e.name for e in nlist]
-- 
2.43.0


From 09d23a169dfb086e99531534433c3c6528e47cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:20 +0000
Subject: [PATCH 63/63] fix: a PD controller of no joint could not be updated

---
 arboris/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index 286c1ec..0099f74 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -131,7 +131,7 @@ class ProportionalDerivativeController(Controller):
             else:
                 self._cndof += j.ndof
                 dof_map.extend(list(range(j.dof.start, j.dof.stop)))
-        self._dof_map = array(dof_map)
+        self._dof_map = array(dof_map, dtype=int)
         self._wndof = None
 
         if kp is None:
@@ -165,7 +165,7 @@ class ProportionalDerivativeController(Controller):
         dof_map = []
         for j in self.joints:
             dof_map.extend(list(range(j.dof.start, j.dof.stop)))
-        self._dof_map = array(dof_map)
+        self._dof_map = array(dof_map, dtype=int)
 
     def update(self, dt):
         """ Compute the generalized force that generate a PD-control. """
-- 
2.43.0

